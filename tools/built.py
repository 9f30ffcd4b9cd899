NA = {}
TECH = {
 'C14': ('runtime monitoring: online differential oracle (double-double expression evaluator) over generated expressions, assignments and batch widths', "Products with a literal zero factor are judged only where the other factor is defined; overflow is counted inconclusive."),
 'C15': ('runtime monitoring: before/after value monitor against a double-double expression evaluator, with a crash and stall monitor', "Judged at assignments where every part of the original is finite."),
 'C16': ('runtime monitoring: before/after value monitor against a double-double expression evaluator, history-independence monitor, crash monitor in resource-limited children', "Expressions whose saturation exceeds the time or memory limit of a child are inconclusive."),
 'C17': ('runtime monitoring: history and multi-threaded schedule monitor (results against the uncached operations, counter accounting, poisoning and stall detection)', "Schedules come from stress with barriers; C28 runs the same workload under the Miri scheduler."),
 'C07': ('runtime monitoring: term-ledger monitor (order-independent sum of recorded terms) over generated decompositions, plus reference oracle', "Terms are closures made by the harness, so the sum is known term by term."),
 'C08': ('runtime monitoring: query-history monitor (every answer compared with the uncached one, evaluations counted by an instrumented density)', "Single-threaded: the cache is neither Sync nor Clone."),
 'C09': ('runtime monitoring: online differential oracle (sum of reference marginals) over generated nestings', ""),
 'C10': ('runtime monitoring: online differential oracle (double-double log-sum-exp of reference densities) and permutation monitor', ""),
 'C11': ('runtime monitoring: change-of-variables oracle, inverse and Jacobian consistency monitors, mass-conservation quadrature', ""),
 'C13': ('runtime monitoring: online differential oracle for the defining densities over counts, parameters and nestings', ""),
 'C25': ('runtime monitoring: exact-arithmetic conversion oracle and summation oracle over edge values and lengths', ""),
 'C18': ('runtime monitoring: online differential oracle (interpreter semantics with accumulated rounding bounds) over compiled functions, in forked children as crash monitor', "Values whose rounding interval spans a discontinuity are inconclusive."),
 'C19': ('runtime monitoring: argument-binding monitor with per-argument witnesses, compile/drop/call history and multi-threaded stress monitors in forked children', "Compiled functions are not Send, so each is used on the thread that compiled it."),
 'C21': ('runtime monitoring: read-back monitor (independent reader of each notation, values compared in double-double) over generated expressions and all small operator nestings', "The reader implements the usual precedence rules of Python, LaTeX and infix text."),
 'C24': ('runtime monitoring: online differential oracle (reference densities) over optimiser routes, parameters, points and base measures', "NegativeBinomial's zero-overhead form is a listed known finding."),
 'C20': ('runtime monitoring: online differential oracle over every interpreter (recorded formula, plain floating-point semantics, double-double values, text read back, compiled code in forked children) for generated programs of the generic interface', "Values near a discontinuity or out of range are inconclusive."),
 'C22': ('runtime monitoring: online differential oracle (double-double densities) over generated builders, data, parameters and compiled evaluations', "Mixtures are judged where the weighted sum is representable."),
 'C23': ('runtime monitoring: online differential oracle (exact integers, double-double polynomials) over coefficient lists, points, number types and interpretations', ""),
 'C27': ('runtime monitoring: online differential oracle (double-double densities and special functions) over patterns, parameters, points and interpreters', "The compiled log_sum_exp out of range is a listed known finding."),
 'C28': ('sanitizers and undefined-behaviour interpreter: AddressSanitizer, ThreadSanitizer with instrumented std, Miri over scheduler seeds, page-protection fences around the arguments of compiled code, crash monitor; interleavings recorded', "Exhausting memory or the stack is not counted; machine code produced at run time is watched by page protection only."),
 'C29': ('runtime monitoring: derivative-propagating number types of the harness driven through the generic code, judged against analytic derivatives in double-double', "Reaches whatever is generic over the number type; log-gamma parts are computed in f64 by the library and their parameters excepted."),
 'C30': ('runtime monitoring: derivative-propagating number types of the harness driven through generated programs and helpers, judged against chain-rule formulas in double-double', "Judged where the program and its derivative formula are defined and well conditioned."),
}
