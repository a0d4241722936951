---------------------------- MODULE TokenWriters ----------------------------
(* src/util/token_model.rs: how the blocks of the documents get into one     *)
(* file.  Workers take documents from the walk, in any order; each fills a   *)
(* buffer of its own, line by line, and then writes it under the lock.       *)
(* Granularity "document" is the code; with "line" (the lock taken for every *)
(* line) and "none" (no lock, a write in two halves) the model must fail.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Workers, Documents, MaxLines, Granularity
VARIABLES left,    \* documents not yet taken
          size,    \* document -> number of lines
          task,    \* worker -> document, or 0
          made,    \* worker -> lines prepared
          buffer,  \* worker -> lines not yet written
          owner,   \* holder of the lock, or 0
          file     \* written lines <<document, line>>
vars == <<left, size, task, made, buffer, owner, file>>
Init == /\ left = 1..Documents /\ size \in [1..Documents -> 0..MaxLines]
        /\ task = [w \in Workers |-> 0] /\ made = [w \in Workers |-> 0] /\ buffer = [w \in Workers |-> <<>>] /\ owner = 0 /\ file = <<>>
Take(w) == /\ task[w] = 0 /\ \E d \in left : task' = [task EXCEPT ![w] = d] /\ left' = left \ {d}
           /\ made' = [made EXCEPT ![w] = 0] /\ UNCHANGED <<size, buffer, owner, file>>
Prepare(w) == /\ task[w] # 0 /\ made[w] < size[task[w]] /\ owner # w
              /\ made' = [made EXCEPT ![w] = @ + 1] /\ buffer' = [buffer EXCEPT ![w] = Append(@, <<task[w], made[w] + 1>>)]
              /\ UNCHANGED <<left, size, task, owner, file>>
ReadyToWrite(w) == /\ task[w] # 0 /\ buffer[w] # <<>>
                   /\ IF Granularity = "document" THEN made[w] = size[task[w]] ELSE TRUE
Acquire(w) == /\ ReadyToWrite(w) /\ owner = 0 /\ Granularity # "none" /\ owner' = w /\ UNCHANGED <<left, size, task, made, buffer, file>>
\* one write call copies line after line
Copy(w) == /\ buffer[w] # <<>> /\ IF Granularity = "none" THEN ReadyToWrite(w) ELSE owner = w
           /\ file' = Append(file, buffer[w][1]) /\ buffer' = [buffer EXCEPT ![w] = Tail(@)] /\ UNCHANGED <<left, size, task, made, owner>>
Release(w) == owner = w /\ buffer[w] = <<>> /\ owner' = 0 /\ UNCHANGED <<left, size, task, made, buffer, file>>
Finish(w) == /\ task[w] # 0 /\ made[w] = size[task[w]] /\ buffer[w] = <<>> /\ owner # w
             /\ task' = [task EXCEPT ![w] = 0] /\ UNCHANGED <<left, size, made, buffer, owner, file>>
Next == \E w \in Workers : Take(w) \/ Prepare(w) \/ Acquire(w) \/ Copy(w) \/ Release(w) \/ Finish(w)
Over == left = {} /\ \A w \in Workers : task[w] = 0
Spec == Init /\ [][Next \/ (Over /\ UNCHANGED vars)]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
\* the lines of a document are one contiguous stretch, in order
Contiguous == \A i \in 1..(Len(file) - 1) : IF file[i][2] < size[file[i][1]] THEN file[i + 1] = <<file[i][1], file[i][2] + 1>> ELSE file[i + 1][2] = 1
Complete == Over => Len(file) = (LET RECURSIVE Sum(_)
                                     Sum(d) == IF d = 0 THEN 0 ELSE size[d] + Sum(d - 1) IN Sum(Documents))
Ends == <>Over
=============================================================================
