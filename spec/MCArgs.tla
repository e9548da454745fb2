------------------------------- MODULE MCArgs -------------------------------
(* A reader of command lines which looks at one argument after the other,    *)
(* for every command line of up to MaxLen arguments. Checked: it understands *)
(* each as Args says, and always comes to an end. Faults: "options" still    *)
(* looks for options behind --, "more" takes no notice of a fourth argument, *)
(* "early" refuses incomplete command lines before it answers.               *)
EXTENDS Args

CONSTANTS Words, MaxLen, Fault
VARIABLES args, k, plain, literal, done
vars == <<args, k, plain, literal, done>>

Init == /\ args \in UNION {[1..n -> Words] : n \in 0..MaxLen}
        /\ k = 1 /\ plain = <<>> /\ literal = FALSE /\ done = ""
Here == done = "" /\ k <= Len(args)
End(what) == done' = what /\ UNCHANGED <<args, k, plain, literal>>
Skip == k' = k + 1 /\ UNCHANGED <<args, done>>
IsOption == Option(args[k]) /\ (Fault = "options" \/ ~literal)

Dashes == /\ Here /\ args[k] = "--" /\ ~literal
          /\ literal' = TRUE /\ Skip /\ UNCHANGED plain
Ask == /\ Here /\ IsOption
       /\ \E w \in {"help", "version"} :
            /\ args[k] \in (IF w = "help" THEN Help ELSE Version)
            /\ IF Fault = "early" /\ Len(args) < 3 THEN End("refuse") ELSE End(w)
Unknown == /\ Here /\ IsOption /\ args[k] \notin Help \cup Version /\ End("refuse")
Take == /\ Here /\ ~IsOption /\ ~(args[k] = "--" /\ ~literal)
        /\ IF Len(plain) = 3 /\ Fault # "more" THEN End("refuse")
           ELSE IF args[k] = "" THEN End("refuse")
           ELSE plain' = Append(plain, args[k]) /\ Skip /\ UNCHANGED literal
Finish == /\ done = "" /\ k > Len(args)
          /\ End(IF Len(plain) < 3 THEN "refuse" ELSE IF plain[1] \in Ts THEN "run" ELSE "refuse")
Next == Dashes \/ Ask \/ Unknown \/ Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Understood == done # "" => done \in Meanings(args)
(* the arguments a run is made with are those of the definition *)
Same == done = "run" => plain = Plain(args)
Answers == <>(done # "")
=============================================================================
