LIB = "the real library, in process, under a watchdog with panic capture"
CLI = "the real command-line program, built from the working tree, in scratch directories"
M = "model_checking"
NOTES.update({
"C01": ("bounded exhaustive exploration of tree texts on the real code (crash/hang/verdict monitor)", M,
  f"Every piece sequence, shape x text and single/double corruption within the bounds is run through {LIB}, a subset through {CLI}; debug assertions and overflow checks are on. Assumes longer texts crash no differently."),
"C02": ("bounded exhaustive exploration of (tree, Solidity) file pairs on the real CLI (crash/status monitor)", M,
  f"Every sequence of definitions, adversarial piece sequence, truncation and deletion within the bounds is run through {CLI} under all six flag sets. Panics of the forge-fmt dependency that are listed in known_findings.txt are reported as known."),
"C03": ("explicit enumeration of a tree-drawing model, conformance of the real parser node by node", M,
  "The model draws every tree within the bounds in every layout and text class; the real parser's result is compared with the drawing. Assumes larger drawings follow the same recursion."),
"C04": ("explicit enumeration of the drawing model and of every mistake at every place, verdict compared with the real parser and CLI", M,
  "The model knows which drawings are well formed and what error names each planted mistake. `check` names semantic problems only summarily, which is accepted."),
"C05": ("explicit enumeration of the drawing model with positions, spans/excerpts/carets of the real errors compared", M,
  "The model tracks where each construct lies while it draws; check's locations are compared on enumerated contract layouts through the real CLI."),
"C06": ("explicit enumeration of trees against a reference generator, real output parsed and compared", M,
  "The reference computes tests, order and comments from the model tree; the generated Solidity is read by a small independent reader. Every shape, multi-tree file and special text within the bounds."),
"C07": ("explicit enumeration of trees against a reference generator of modifiers", M,
  "Modifier lists and definitions are compared up to a consistent renaming, for every shape and multi-tree file within the bounds."),
"C08": ("explicit enumeration of titles over an adversarial word alphabet against a reference naming function", M,
  "Every title within the bounds in every context; word semantics beyond the alphabet's classes are not explored."),
"C09": ("explicit enumeration of shapes x colliding titles against a reference clash predicate", M,
  "Accept/reject and distinctness compared with the model for scaffold and check. The reference sanitises names as documented (C08)."),
"C10": ("explicit enumeration of trees x adversarial texts, output checked by an independent grammar and the formatter's fixed point", M,
  "Validity is judged by a fixed grammar of scaffolded files and by the Solidity parser and formatter bulloak itself uses, not by solc (not installed)."),
"C11": ("explicit enumeration of trees x every option combination, outputs related by the documented edits", M,
  "Every subset of options with three versions, on every tree within the bounds, by library and CLI."),
"C12": ("explicit enumeration of sequences of trees x root alphabet against a reference combiner", M,
  "All root sequences and all sharings of conditions within the bounds; expected errors and expected combination are computed independently."),
"C13": ("explicit enumeration of trees x every meaning-preserving edit (and pairs), results compared with the unedited tree", M,
  "Metamorphic: the oracle is the same code on the unedited file, tied to the drawing by C03/C06."),
"C14": ("explicit enumeration of trees x options, scaffold->check->fix runs of the real CLI", M,
  f"Run through {CLI}; the property is its own oracle."),
"C15": ("explicit enumeration of (tree, subset of items, extras) against a set-difference model, real CLI", M,
  f"Run through {CLI}; expected violations are computed as a set difference of names."),
"C16": ("explicit enumeration of permutations and interleavings against an inversion model, real CLI", M,
  f"Run through {CLI}; an order violation is expected iff the permutation has an inversion."),
"C17": ("explicit enumeration of file batches and arrangements, check->fix->check runs of the real CLI against a counting model", M,
  f"Run through {CLI}; listing, totals, hints, status and what remains after the fix must agree."),
"C18": ("explicit enumeration of contract arrangements and edit histories, fix->check->fix runs of the real CLI", M,
  f"Run through {CLI}; the fixed file is also compared with the model's expected set and order."),
"C19": ("explicit enumeration of contract arrangements with user code everywhere, token-level conservation model", M,
  f"Run through {CLI}; every token and comment of the user must be accounted for after --fix. Assumes comments attach to definitions as forge-fmt keeps them."),
"C20": ("explicit-state breadth-first search over workspace states, every command executed by the real CLI, snapshots compared", M,
  f"Every command of the alphabet in every reachable workspace state within the depth; the model predicts each directory snapshot."),
"C21": ("explicit-state breadth-first search over workspace states with the write policy as transition relation", M,
  "As C20, plus every path form, prior content of the output and repetition."),
"C22": ("explicit enumeration of file sequences, joint run compared with single runs of the real CLI", M,
  f"Run through {CLI}; the single runs are the oracle."),
"C23": ("exhaustive exploration of a controlled set of hash seeds, clocks, directories and histories on the real CLI", M,
  "The process's getrandom and clocks are interposed, so the seed is a controlled choice; outputs are compared byte for byte over every seed of the set."),
"C24": ("exhaustive fault injection: every file-system call x every fault, and every pair, on the real CLI", "fault_enumeration",
  "The C library's file calls are interposed (LD_PRELOAD). Faults of close and of stdout/stderr are not injected; a file being written may be left truncated by a failed write."),
"C25": ("explicit enumeration of every layout edit at every token gap of a Solidity file, real CLI, compared with the unedited file", M,
  f"Metamorphic, run through {CLI}; the plain layouts are tied to a model by C15-C19. Single edits and whole-file restylings, pairs in the thorough tier."),
"C26": ("explicit enumeration of shapes x partitions of titles against a reference list of mistakes, real report compared", M,
  "The model computes the multiset of mistakes with their lines; the real report is read line by line. Within the bounds of shape size."),
"C27": ("explicit enumeration of command lines (subsets x spellings x orders x positions x misuses) on the real CLI", M,
  f"Run through {CLI}; every spelling is compared with the canonical one, every misuse must be refused with status 2 and no effect."),
"C28": ("exhaustive enumeration of crash points: the real CLI is killed before every file-system call and inside every write, then run again (and killed again)", "fault_enumeration",
  "The C library's file calls are interposed. Kills between calls and after a number of bytes of a write; lost pages of a power failure are not modelled."),
"C29": ("stateless model checking of the real CLI: a scheduler decides every file-system call of two or three processes, all interleavings with sleep-set reduction", M,
  "Every process stops before each file-system call (LD_PRELOAD) and the explorer picks the next one, depth first over all choices; calls on different files, or that only read, are taken as independent. Some pairs are explored without reduction."),
"C30": ("explicit-state exploration of the graph of single repairs on the real library, confluence and exactness checked at every state", M,
  "States are the real checker's contexts, transitions the real repairs in every order; the end state is compared with what the real CLI writes. Exactness is demanded where the functions present are in tree order; with order violations only that no function is lost or reported anew."),
"C31": ("explicit-state exploration of the histories of a test file: states are the real files, transitions tree changes with check --fix of the real CLI and user edits; invariants checked at every transition", M,
  "Breadth-first with equal files explored once. The order of obsolete functions and the separator comments that bulloak adds are not restricted."),
})
