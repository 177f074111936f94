NA.update({
"C40":"The offset tables are numeric arrays filled from run-time data; no static argument in reach bounds them. Structural parts are claimed in C17 and C18.",
"C41":"Quantifies over the run-time contents of the trie; the bit layout both sides share is claimed in C11.",
"C42":"Round-trip equality of run-time bytes; the structural part (both sides emit and consume the same fields) is claimed in C08.",
"C43":"Freedom from out-of-range accesses for arbitrary bytes needs run-time bounds that the code does not check at all; no sound static argument can establish it on this tree.",
"C44":"A numerical result; no structural necessary condition stronger than what error-flow already covers.",
"C45":"Equality of run-time strings under a rule file; not visible in the shape of the code.",
"C46":"Optimality over all paths is an inductive claim about run-time costs; the local step is claimed in C17.",
})
