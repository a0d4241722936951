--------------------------- MODULE SelectorsTrace ---------------------------
EXTENDS Selectors, TraceIO
VARIABLES k, verdict
tvars == <<selvars, k, verdict>>
Obs == Trace[k].obs
TInit == k \in 1..NCases /\ verdict = "run" /\ SStart(Trace[k].in)
Expected == [paragraphs |-> MParagraphs, headings |-> MHeadings, math |-> MathNodes(Tr), refs |-> RefNodes(Tr), extended |-> MExtended]
Filters == inp.filters
XPaths == inp.xpaths
Ok == /\ Obs.status = "ok"
      /\ Obs.paragraphs = MParagraphs /\ Obs.headings = MHeadings /\ Obs.math = MathNodes(Tr) /\ Obs.refs = RefNodes(Tr)
      /\ Obs.extended = MExtended
      /\ Obs.iter = [paragraphs |-> MParagraphs, headings |-> MHeadings]
      /\ Obs.seq = [paragraphs |-> MParagraphs, iter |-> MParagraphs, math |-> MathNodes(Tr), refs |-> RefNodes(Tr)]
      /\ \A j \in 1..Len(Filters) : Obs.filtered[j] = Filtered(Tr, Filters[j])
      /\ \A j \in 1..Len(XPaths) : /\ Obs.xpaths[j] = ByXPath(Tr, XPaths[j]) /\ Obs.xiter[j] = ByXPath(Tr, XPaths[j])
                                   /\ Obs.first[j] = FirstOf(ByXPath(Tr, XPaths[j]))
Judge == IF pc' # "done" THEN verdict' = "run"
         ELSE IF Ok THEN verdict' = "accept"
         ELSE verdict' = "reject" /\ Reject(k, Expected)
TNext == \/ verdict = "run" /\ SelNext /\ UNCHANGED k /\ Judge
         \/ verdict # "run" /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
