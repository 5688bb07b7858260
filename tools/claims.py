NA = {}
EXHGRAPH = "exhaustive enumeration of bounded programs; explored graph compared with a reference interpreter by subset construction over all traces"
c("C01", EXHGRAPH, EXH)
c("C02", "exhaustive enumeration of programs and assertions; verdict, failing state and flagged states compared with the reference state graph, in-process and through the binary", EXH)
c("C03", "exhaustive enumeration of programs and transition assertions; verdict, failing step and flagged steps compared with the steps of the reference state graph, in-process and through the binary", EXH)
c("C04", "exhaustive enumeration of programs and exists assertions; the assertions reported as never reached compared with the reference state graph, in-process and through the binary", EXH)
c("C05", "exhaustive enumeration of programs; the deadlock verdict and state of every exploration mode compared with the states without successors of the reference graph, in-process and through the binary", EXH)
c("C07", EXHGRAPH + "; every pair of distinct values in every place of a state must stay distinct", EXH)
c("C08", "exhaustive enumeration of programs that share mutable values; every explored state is rebuilt in a reference interpreter, sharing included, and all its steps compared", EXH)
c("C11", EXHGRAPH, EXH)
c("C12", EXHGRAPH, EXH)
c("C10", "exhaustive enumeration of bounded programs with every crash point; the explored graph is compared with a reference interpreter's, crashes included, by subset construction over all traces and by the sets of reachable states and running actions", EXH)
c("C06", "exhaustive enumeration of programs, fairness labellings and liveness assertions; the verdict compared with an exact fair-cycle search (Streett condition) in the reference state graph, counterexamples checked to be fair lassos of the explored graph", EXH)
c("C14", "exhaustive enumeration of bounded programs under every exploration mode: each mode's graph compared with the reference graph by subset construction over all traces, state counts and the verdicts of the binary under every mode flag compared with those of the reference graph", EXH)
c("C15", "exhaustive enumeration of bounded programs, failing assertions and exploration modes: every counterexample is executed in the reference state graph and its end judged there, compared with what the binary prints and exports, and replayed as a guided run; every path of every explored graph is replayed too", EXH)
c("C13", "exhaustive enumeration of bounded programs and configurations; the explored graph compared with the reference graph under the same limits by subset construction over all traces, and what the binary reports with the reference graph under the combined options", EXH)
c("C17", "exhaustive enumeration of bounded programs, bounds and exploration modes; the lists next_states() returns in all explored states compared with the lists of enabled steps of all states of the reference graph, and the graph with the reference graph", EXH)
c("C16", "stateless exploration of the real simulator: its random numbers are replaced and every sequence of random choices up to a bound is run; each run accepted by the reference graph, all runs together compared with it by subset construction over all traces, failures compared with what the path violates", EXH)
c("C18", "exhaustive enumeration of bounded programs; the explored graph with the names, labels, messages and returned values of its steps compared with the reference graph by subset construction over all traces; the exported files read back and compared with the explored graph state by state", EXH)
c("C25", "the real checker under a Go runtime whose iterations over maps are controlled: every run with all iterations starting at the same entry and every run with one iteration starting elsewhere (up to a number of iterations) gives the identical answer; so do runs after other specifications and modes in the same process, and the output and files of the binary", EXH)
c("C26", "exhaustive enumeration of specifications with constants of every kind in every place, names that shadow them, attempts to change them in place, and hooks; explored graph compared with a reference interpreter by subset construction over all traces, verdicts of the binary with those of the specification with replaced constants", EXH)
c("C09", "exhaustive enumeration of bounded programs with symmetric values and roles; the reduced graph compared with a reference interpreter's over all traces up to renaming, no two explored states may be renamings of each other, verdicts (liveness included) compared with those of the unreduced reference graph", EXH)
c("C23", "exhaustive enumeration of bounded programs over every kind of symmetry domain; the reduced graph compared with a reference interpreter's over all traces up to the symmetries of the domains, and verdicts of assertions", EXH)
c("C21", "exhaustive enumeration of operation sequences up to a depth, executed by the checker's evaluator and by a list-based mathematical model with all observations compared after every operation; the same operations as actions of specifications, every explored state's steps compared", EXH)
c("C22", "exhaustive enumeration of argument grids and operation sequences, results compared with a model of the documented helpers; the helpers in specifications, explored graph compared with a reference interpreter by subset construction over all traces", EXH)
c("C24", "stateless exploration of the real test plugin: every history of requests up to a length, every set of action sequences, every schedule of concurrent sequences under a controlled scheduler, every value shape; the answers compared with what the system under test recorded", EXH)
c("C19", "exhaustive enumeration of pairs and triples of bounded components, interface functions, initial states and assertions; the verdict and witness of the real binary compared with the product of the components' reference graphs (explicit-state joint reachability)", EXH)
