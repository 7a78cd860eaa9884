# property -> (function, explanation, rule)
from . import vecprops as vp, exts, scalar, half, layers, tet, mem, put, fixedp, spmd, rnd, state, symbols, concepts, mathops

X86 = exts.NATIVE
def names(rep):
    return X86 + ['neon128', 'aarch64', 'sve128', 'sve256', 'sve512', 'vmx', 'vsx'] + exts.VARIANTS + ([] if rep.tier == 'quick' else ['sve1024', 'sve2048'])

def vec(prop, rule):
    def f(rep, tree, work): vp.run_prop(rep, tree, work, names(rep))
    return (f, vp.EXPL, rule)

CHECKS = {
 'C01': vec('C01', 'no access of an unaligned operation (or gather/scatter) carries an alignment assumption above the element size; aligned operations at most the vector size'),
 'C02': vec('C02', 'the set of byte offsets an operation reads or writes, with the condition under which it does, is contained in the documented set'),
 'C03': vec('C03', 'the value loaded in lane i / the memory after a store equals the documented element, bit for bit'),
 'C04': vec('C04', 'every result lane is the documented input lane or constant'),
 'C05': vec('C05', 'every result lane equals the documented integer function of the same lanes'),
 'C06': vec('C06', 'every result lane equals the documented shift for all in-range counts'),
 'C07': vec('C07', 'every result bit equals the documented boolean function of the same bits'),
 'C08': vec('C08', 'comparison results, logicals, masks and reductions equal the documented predicate of each lane, in canonical representation'),
 'C09': vec('C09', 'every result lane is the IEEE-754 round-to-nearest operation of the same lanes (one of the documented forms)'),
 'C10': vec('C10', 'every result lane equals the documented exact floating-point function'),
 'C11': vec('C11', 'every result lane is the documented conversion of the corresponding source lane'), 'C12': (half.check, vp.EXPL, 'every conversion helper is the exact widening or the correctly rounded narrowing, on the bit pattern; classification is a function of the bit pattern'),
 'C14': (layers.check_c14, layers.EXPL, 'every call on unrolled packs is the same operation on each of its registers, in order'),
 'C15': (layers.check_c15, layers.EXPL, 'every call form of an API layer is the C function it names with the same arguments'),
 'C17': (tet.check, tet.EXPL, 'the destination after an assignment is the scalar program\'s, element by element, and nothing outside the n elements is touched; no size or index is kept in fewer than 64 bits'),
 'C18': (mem.check, mem.EXPL, 'the allocator calls, releases, copies and exceptions of a call are those of its specification for every count, in order, and so is the result'),
 'C27': (put.check, put.EXPL, 'what a print function writes, in which order and under which condition, and what it returns is its specification; ufp is the documented function of the two bit patterns'),
 'C20': (fixedp.check, fixedp.EXPL, 'every operation on fixed-point numbers is its definition on the raw integers; vector forms give the scalar result in each lane'),
 'C16': (spmd.check, spmd.EXPL, 'a kernel has on every lane the effects of its lane program, and none on lanes that do not run it'),
 'C21': (rnd.check, rnd.EXPL, 'every word of every lane of the result is the published generator of that lane\'s counter and key'),
 'C19': (mathops.check, mathops.EXPL, 'a math operator is the routine of its own name, accuracy, precision and extension, lane by lane; each such name denotes that routine of the math library in every library'),
 'C22': (state.check, state.EXPL, 'no object of static or thread storage duration is written or handed out for writing; no function with hidden state is called'),
 'C23': (symbols.check, symbols.EXPL, 'a declared function is defined by the library; a documented call compiles and returns on every path; no body ends the process outside the documented places'),
 'C24': (concepts.check, concepts.EXPL, 'valid calls type-check in every standard; calls with one wrong type do not in C++20; C++20 calls are the C functions'),
 'C26': vec('C26', 'every result lane is the reciprocal (square root) of the same lane, exact or by an approximation instruction whose documented error is within the bound'),
 'C13': (scalar.check_scalar, vp.EXPL, 'every scalar function returns what the vector operator is documented to return for one lane'),
}

TECH = ('static analysis: abstract interpretation of the LLVM IR of the generated code in a canonical bit-level value domain '
        '(dataflow value numbering with joins at merges; no execution, no solver, no path enumeration)')
DEFAULT_META = (TECH, 'an equal canonical value discharges the obligation for every input; a violation is reported only when constant folding separates the implementation from every accepted reference; the rest is counted undecided')
META = {}
NA = {
 'C25': 'the ulp error of the Sleef kernels and of the polynomial math routines is a quantitative bound over rounding errors of every argument; no sound static argument in reach bounds it (it needs interval or formal error analysis of each polynomial), and executing them is a different family',
}
