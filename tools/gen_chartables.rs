#[path="/verif/harness/shims/unidecode/src/lib.rs"] mod unidecode;
fn main(){
 let mut known:Vec<u32>=vec![];
 for r in [0x80..=0x66Fu32,0x900..=0x97F,0x10A0..=0x10FF,0x1680..=0x1680,0x1E00..=0x2BFF,0x3000..=0x3002,0x4E00..=0x4E10,0xAC00..=0xAC10,0xFB00..=0xFB06,0xFEFF..=0xFEFF,0xFF01..=0xFF60,0xFFFD..=0xFFFD,0x10400..=0x1044F,0x1D400..=0x1D410,0x1F600..=0x1F603]{ for c in r {known.push(c)} }
 let ch=|c:&u32| char::from_u32(*c).unwrap();
 let known:Vec<u32>=known.into_iter().filter(|c|char::from_u32(*c).is_some()).collect();
 let set=|name:&str,f:&dyn Fn(char)->bool|{
   // as union of intervals
   let mut iv:Vec<(u32,u32)>=vec![];
   for c in known.iter().filter(|c|f(ch(c))) { if let Some(l)=iv.last_mut(){ if l.1+1==*c {l.1=*c;continue;} } iv.push((*c,*c)); }
   let single:Vec<String>=iv.iter().filter(|(a,b)|a==b).map(|(a,_)|a.to_string()).collect();
   let multi:Vec<String>=iv.iter().filter(|(a,b)|a!=b).map(|(a,b)|format!("({a}..{b})")).collect();
   let mut parts=multi; parts.push(format!("{{{}}}",single.join(",")));
   let mut out=String::new(); let mut line=String::new();
   for p in parts { if line.len()+p.len()>100 && !line.is_empty() { out.push_str(&line); out.push_str("\n  "); line.clear(); } if !(out.is_empty()&&line.is_empty()) {line.push_str(" \\cup ");} line.push_str(&p); }
   out.push_str(&line);
   println!("{name} ==\n  {out}");
 };
 println!("---------------------------- MODULE CharTables ----------------------------");
 println!("(* Unicode classes and mappings of the non-ASCII code points the models and *)\n(* the harness use.  Data only (Unicode character database), plus Translit,  *)\n(* the table of the transliteration stand-in (harness/shims/unidecode).      *)");
 println!("EXTENDS Naturals, Sequences, TLC");
 set("KnownNonAscii",&|_|true);
 set("NonAsciiAlpha",&|c|c.is_alphabetic());
 set("NonAsciiNumeric",&|c|c.is_numeric());
 set("NonAsciiUpper",&|c|c.is_uppercase());
 set("NonAsciiLower",&|c|c.is_lowercase());
 let map=|name:&str,f:&dyn Fn(char)->Option<Vec<u32>>|{
   println!("{name}Pairs == <<");
   let mut first=true; let mut line=String::from("  ");
   for c in &known { if let Some(v)=f(ch(c)) { let s=format!("{}<<{},<<{}>>>>",if first{""}else{","},c,v.iter().map(|x|x.to_string()).collect::<Vec<_>>().join(",")); first=false; if line.len()+s.len()>100 {println!("{line}"); line=String::from("  ");} line.push_str(&s);} }
   println!("{line}\n >>");
   println!("{name}Fn == [c \\in {{{name}Pairs[i][1] : i \\in 1..Len({name}Pairs)}} |->\n   {name}Pairs[CHOOSE i \\in 1..Len({name}Pairs) : {name}Pairs[i][1] = c][2]]");
 };
 map("NonAsciiLowercase",&|c|{let v:Vec<u32>=c.to_lowercase().map(|x|x as u32).collect(); if v==[c as u32]{None}else{Some(v)}});
 map("NonAsciiUppercase",&|c|{let v:Vec<u32>=c.to_uppercase().map(|x|x as u32).collect(); if v==[c as u32]{None}else{Some(v)}});
 map("Translit",&|c|{let s=unidecode::unidecode_char(c); if s.is_empty(){None}else{Some(s.chars().map(|x|x as u32).collect())}});
 println!("=============================================================================");
}
