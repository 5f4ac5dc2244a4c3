notes = {
 'S02': 'The reference solver (lib/reflin.cc) works in long double on its own one-sided Jacobi decomposition. Cases in which a singular value lies so close to the threshold that the rank is not decided by the inputs are counted and left out.',
 'S03': 'The freshly built twin gets the same inputs; agreement is to a tolerance derived from the conditioning, not bit for bit, so a change of the order of operations is not an alarm.',
 'S04': 'Tasks outside the stack are also destroyed and replaced, so a dependency left behind is a use after free for AddressSanitizer.',
 'F02': 'Two oracles per case: the derivative of an independently computed error, and of the error the feature itself reports.',
 'F04': 'The second-order cut of the 6D point below a squared rotation error of 1e-8 is part of the statement because the code documents it.',
 'D02': 'Not-a-number controls are part of the workload: the documented behaviour (throw, state kept) is checked.',
 'L03': 'An offline checker orders reads by the posts that certainly happened before and certainly after each of them (interval order of a recorded history). Delays are injected inside the copies of messages.',
 'L09': 'The concurrent family polls while another thread appends in arbitrary chunks.',
 'L10': 'gettimeofday, clock_gettime, clock and time are defined by the monitor, so durations are exact.',
 'L12': 'The same sources are compiled with traces on, and once more with traces off (L12_off.cc).',
 'L19': 'gettimeofday and clock are defined by the monitor.',
 'L20': 'dlopen, dlsym, dlclose and dlerror are replaced (by -D on the command line) by a dynamic linker owned by the monitor, which knows libraries that exist, lack symbols or are missing, and notices a use after closing. Python is the real CPython behind a stand-in of dynamic-graph-python\'s Interpreter.',
 'L23': 'The monitor reads the text with a parser of its own for the graph language (names, quoted names, numbers, attributes, nested groups, comments), strict where the language is strict, so an unquoted name, a lost brace or text after the end is an error; no outside program is needed. Nodes and edges are compared as sets with a structure kept aside while stacks, tasks, features and references are edited; colours and the order of lines are not judged.',
 'L22': 'The same input signals are given again or not: an oracle by construction, independent of what the block computes, so it holds for every class of the table (about 110 classes answer; the rest only follow the clock or files and are decided by L06 to L09, L17, L19). A dependency that is missing, removed or read without being evaluated shows as soon as the input it stands for is the only one to change. Whether an input is a constant or comes from another signal is drawn per case.',
 'L21': 'Twin instances are created and driven in memory that an allocation hook fills with two different patterns, so an answer that depends on indeterminate memory differs between them; allocated bytes are read from the sanitizer allocator before and after five lives of the same block.',
 'P04': 'Real threads; the log of step starts and ends is checked offline against the commands and their times.',
}
