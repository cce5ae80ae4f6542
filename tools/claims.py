NOTES="Model checking by exhaustive bounded exploration of the real code under a simulated environment (kernel, peers, TLS library, clock, files); see DESIGN.md. Defects found and repaired are listed in known_findings.txt."
W="stateless model checking: the real program runs on a simulated kernel/TLS/clock and every choice sequence (schedules, cuts, faults, inputs) within the deviation bound is executed"
N="bounded: all sequences of the scenario alphabets with at most D deviations from the default schedule (D per scenario, see DESIGN.md and the evidence file); the environment is simulated, every trace is an execution of the code itself"
X=" and the statement is judged by a reference written from the property"
CLAIMS={}
for i in ["C01","C02","C03","C04","C05","C09","C10","C11","C12","C13","C14","C20","C21","C25","C26"]: CLAIMS[i]=(W+X,"model_checking",N)
W2="stateless model checking: the module of the program runs in-process on simulated system calls and every operation sequence, input and fault choice within the bound is executed and compared step by step with a reference model"
N2="bounded: all sequences/inputs of the alphabets given in DESIGN.md and the evidence file; every trace is an execution of the code itself, memory errors are caught by the address and bounds sanitizers"
for i in ["C06","C07","C08","C16","C17","C18","C19","C22","C23","C24","C28"]: CLAIMS[i]=(W2,"model_checking",N2)
W3="model checking with state merging: the real program runs as master, as worker and as command on simulated processes, signals and files; every interleaving within the deviation bound is executed, paths ending where an identical state (program memory and environment) was reached before"
CLAIMS["C15"]=(W3+X,"model_checking",N)
W4="stateless model checking of thread interleavings: the real code is compiled with every memory access as a scheduling point, threads run as coroutines, every schedule with at most D preemptions is executed and judged by disjointness/conservation of blocks and by linearizability of the ring buffer"
CLAIMS["C27"]=(W4,"model_checking","bounded: two or three threads, short programs of all operation kinds, D preemptions per scenario; sequentially consistent memory; every trace is an execution of the code itself")
NA={}
