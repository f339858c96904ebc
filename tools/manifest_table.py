FAULT = "exhaustive fault injection: every system call and failure kind of every operation in every explored state of the real code (explicit-state exploration under a fault injector)"
T.update({
 "C07": (FAULT, "fault_enumeration", "Every operation of the alphabet x every state of the prelude tree x every failing system call x failure kind, and every refused request; memory, file and later behaviour are compared with the state before."),
 "C08": (SEQ, "model_checking", "Every sequence up to the depth is followed by a reopening that is compared with the reference model and with the database before it."),
 "C09": ("exhaustive crash-point and write-back enumeration over a file-system model bound to the recorded system calls of the real code, with every image reopened by the real code", "fault_enumeration", "Every crash point of every operation of the alphabet and every image that the file-system model permits (ordered metadata journal, unordered data pages, torn writes); a conformance check compares the model's final state with the real directory."),
 "C21": (SEQ, "model_checking", "Every sequence up to the depth over all operations, with revisions observed in memory and in the file."),
 "C23": (SEQ, "model_checking", "Every sequence of password changes up to history size + 3 for each policy in the menu."),
 "C24": (SEQ, "model_checking", "Every result of every operation is rendered when returned and after every later operation, in every sequence up to the depth."),
 "C25": (FAULT, "model_checking", "Every state x every target path x every failing system call."),
})
T.update({
 "C10": ("stateless model checking: systematic exploration of all interleavings of the real code up to a preemption bound under a controlled scheduler, each judged for linearizability", "model_checking", "Every program of two or three concurrent operations in the menu x every schedule up to the preemption bound; results and final state compared with those of every sequential order of the same code."),
 "C11": ("stateless model checking: systematic exploration of schedules of the real code under a controlled scheduler, each execution judged by the race detector's happens-before relation", "model_checking", "Every pair of operations and readers of results in the menu x every schedule up to the preemption bound."),
 "C12": (SEQ, "model_checking", "Every sequence up to the depth; all bytes of all files after every system call are scanned for every secret in use, and the mode of every file is tracked at every moment."),
 "C13": (PROD, "exploration", "The full product of secrets, algorithms, digits, periods, times around period boundaries and candidate texts; the reference is an independent RFC 6238 implementation."),
 "C14": (PROD, "exploration", "Every single change and every pair of changes from a menu to a genuine assertion, every truncation and bit flip of its parts; the reference is an independent decision procedure."),
 "C15": (PROD, "exploration", "Every single change, pair of changes, truncation and byte value of a genuine registration; the reference is an independent parser."),
})
T.update({
 "C16": (PROD, "exploration", "Every single change and pair of changes from a menu to every value of a genuine database file, every truncation and every byte replaced; each accepted file is driven through every operation for every user."),
 "C17": (PROD, "exploration", "The full product of policies (limits absent, at and beyond the defaults, crossing) and lengths around every limit, in bytes and in multi-byte characters, through creation, addition, change and reopening."),
 "C18": (PROD, "exploration", "Every key of a family in every encoding x comment x white space, every structural change, truncation and flipped byte of its text and of its material; the reference is an independent parser of the encodings."),
 "C19": (PROD, "exploration", "Full products of labels and issuers over every byte and every pair of reserved characters, of secrets over every length and byte, and of the parameters at and beyond the limits; the reference is an independent decoder and RFC 6238 implementation."),
 "C20": (PROD, "exploration", "Every text up to a length over the alphabet of the grammar's character classes, compared with an independent matcher of the grammar, and round trips through registration, reopening and identification."),
 "C22": (SEQ, "model_checking", "Every sequence up to the depth; in every state unknown names and existing users are tried with every guess of a menu, counting the hash computations."),
 "C26": (FAULT.replace("every system call and failure kind of every operation", "every outcome of every draw of randomness within a menu, in every sequence up to a bound, for every operation that draws"), "fault_enumeration", "Every script of outcomes of the random sources up to a bound (extremes, repetitions, failures, collisions with existing values) for every constructor and every database operation that draws."),
 "C27": (PROD, "exploration", "Every tuple of up to three arguments for every documented error, and every refusal and every file-system failure of every operation."),
 "C28": (PROD, "exploration", "All structs of one field over the full menu of tag values, of two and three fields over smaller ones, under all option combinations; the reference reads the statement directly."),
 "C30": (SEQ, "model_checking", "All sequences of up to three changes (four for thorough) of two records over a menu of accepted, refused and repeated values; all accessors compared with a list model after each."),
 "C31": (SEQ, "model_checking", "All assignments of marks to the credentials of a kind, and all pairs over kinds, each followed by every operation of a menu; every credential tried after each, live and reopened."),
 "C29": (SEQ, "model_checking", "All sequences of additions up to the depth for every issuer list of a family, compared with a reference after every step."),
 "C32": ("exhaustive differential exploration: every operation is executed with and without every deviation of the rest of its request under a controlled clock and controlled randomness, and the two executions compared", "model_checking", "Every operation of the menu x every field that is not its own x every value of its menu, all at once, and pairs; the reference is the execution with a clean request."),
 "C33": (SEQ, "model_checking", "Every history up to the depth with the file compared with the document that the model gives; all hand-made files of a product of states and renderings opened, observed, saved and compared with the model; every member of the format kept through every pair of operations; a file of the pinned revision."),
 "C34": ("exhaustive differential exploration: every history of a bounded set is executed under every circumstance of a list, with map iteration, clock and randomness controlled, and the executions compared", "model_checking", "Every operation of the menu x every circumstance and every order of iteration over maps at every single iteration, and pairs of operations; the reference is the execution under plain circumstances."),
 "C35": (PROD, "exploration", "Every deviation of a request judged by every damaged record, in turn; every combination of members of tokens, passwords and keys of a menu; the reference is a direct reading of the statement and an independent RFC 6238 implementation."),
 "C36": (PROD, "model_checking", "Every operation x every own field and pair of fields x every hostile value, with the state compared after every refusal, and reopening and the other users exercised after every acceptance; every method and constructor x every hostile value of every argument; references are the state before, the reopened database and the other users' credentials."),
 "C37": ("exhaustive differential exploration: every history of a bounded set is executed with requests and results left alone and overwritten at every moment, under a controlled clock and controlled randomness, and the executions compared", "model_checking", "Every operation and pair of operations x every moment of overwriting, every pair of results, and all histories up to the depth; the reference is the execution in which requests and results are left alone."),
 "C38": (FAULT.replace("every system call and failure kind of every operation", "every refusal, every failing system call, every damage of the file and every shape of secret"), "fault_enumeration", "Every refusal, every failing system call of every saving operation, every secret-bearing field x every shape, every replaced value, cut and byte of a file; all error texts and output are searched for all secrets in use."),
 "C39": (FAULT, "fault_enumeration", "Every operation of a menu and every way to open a database, under every choice of at most two failing system calls; the descriptors, goroutines and files left are compared with those before. Every kind of operation is repeated thousands of times with other texts, comparing the memory in use."),
})
