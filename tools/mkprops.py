"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

TESTS = "The stable tests only cover string splitting; test/fieldasm.js needs packages that are absent here and samples a few hundred operand pairs for two primes on one backend."
FIELDQ = "every prime q of 63 to 768 bits, every pair of operands in [0,q), every representation of each operand (32-bit short, short+Montgomery, long, long+Montgomery), result object distinct from the operands, on the x86-64 and the portable backend (and the ARM64 one through its own assembly)"

prop("C01", "Tagged field ring arithmetic is exact",
     "For every generated field and every pair of elements in any representation, add, sub, mul, neg and square return an element whose value is the integer result reduced modulo the prime. The result is in one of the documented representations and reduced (limbs below the prime).",
     ["inputs", "configurations"], FIELDQ, TESTS + " Carry, borrow, short/long overflow and limb-count dependent code (1 to 12 limbs, with and without a spare top bit) is a property of all operands and all primes.",
     ["src/add.asm.ejs", "src/sub.asm.ejs", "src/mul.asm.ejs", "src/neg.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/montgomerybuilder.js", "src/asmbuilder.js"],
     [("dispatch on the type tags", "src/add.asm.ejs, src/mul.asm.ejs, src/fr_generic.cpp.ejs"), ("Montgomery product generator", "src/montgomerybuilder.js")],
     ["Fr_add", "Fr_sub", "Fr_mul", "Fr_neg", "Fr_square"])
prop("C02", "Tagged division, inverse, modulo and power are exact",
     "inv and div return the modular inverse and quotient, idiv and mod return the integer quotient and remainder of the canonical values, and pow returns the first operand raised to the canonical value of the second. This holds for every representation of the operands; a zero divisor and the inverse of zero are outside the property.",
     ["inputs", "configurations"], FIELDQ, TESTS, ["src/fr.cpp.ejs"], [("conversion through integers", "src/fr.cpp.ejs toMpz/fromMpz")], ["Fr_inv", "Fr_div", "Fr_idiv", "Fr_mod", "Fr_pow"])
prop("C03", "Comparisons and logical operators follow the signed interpretation",
     "eq and neq compare values whatever the representations; lt, gt, leq and geq order elements as signed integers where values above (q-1)/2 are negative; land, lor and lnot treat exactly zero as false. Every one returns 0 or 1.",
     ["inputs", "configurations"], FIELDQ, TESTS, ["src/cmpops.asm.ejs", "src/logicalops.asm.ejs", "src/fr_generic.cpp.ejs"], [("comparison by representation and sign", "src/cmpops.asm.ejs; src/fr_generic.cpp.ejs")], ["Fr_eq", "Fr_lt", "Fr_land"])
prop("C04", "Bitwise operators and shifts act on the canonical value within the field width",
     "band, bor, bxor and bnot act on the canonical non-negative values, keep only the bits of the prime's bit length, and reduce modulo the prime. shl and shr by an amount below the bit length shift (left shifts dropping bits above the bit length, then reducing); an amount of the form q-k with k below the bit length shifts k in the other direction; any other amount gives 0.",
     ["inputs", "configurations"], FIELDQ + "; every shift amount", TESTS, ["src/binops.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs"], [("mask to the bit length and conditional subtraction", "src/binops.asm.ejs; src/fr_raw_generic.cpp.ejs")], ["Fr_band", "Fr_shl", "Fr_shr"])
prop("C05", "Element conversions and text preserve the value",
     "Parsing any decimal integer (negative or beyond the prime included) gives it modulo the prime, and printing any representation gives the canonical decimal text in memory the caller releases with free(); copies and conversions between representations keep the value, produce the requested form, and also work in place. The truth test is false exactly for zero, and conversion to int returns the signed 32-bit value when the element is one and otherwise aborts instead of returning.",
     ["inputs", "configurations"], FIELDQ + "; every decimal integer", TESTS, ["src/fr.cpp.ejs", "src/copy.asm.ejs", "src/montgomery.asm.ejs", "src/fr_generic.cpp.ejs"], [("text through GMP", "src/fr.cpp.ejs"), ("toInt", "src/copy.asm.ejs; src/fr_generic.cpp.ejs")], ["Fr_str2element", "Fr_element2str", "Fr_toInt", "Fr_toNormal", "Fr_copyn"])
prop("C06", "Any history of field operations computes what the integers compute",
     "After any sequence of field operations, each reading elements produced by earlier ones in whatever representation those left them, every element holds the value the same sequence has over the integers modulo the prime. No operation changes an element other than its result.",
     ["histories", "configurations"], "every sequence of operations of the tagged API over a pool of elements (result object distinct from the operands), every prime of 63 to 768 bits, all backends", TESTS + " Representations that only arise as results of other operations, and stale fields inside them, are reached by histories.",
     ["src/fr.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr.cpp.ejs"], [("type tag and short/long/Montgomery fields kept consistent", "every operation")], ["all Fr_* functions"])
prop("C07", "Raw Montgomery arithmetic is exact under every aliasing of its operands",
     "For reduced operands the raw field functions and the raw field class (add, sub, neg, Montgomery product and square, product by a word, to/from Montgomery form, copy, swap, equality, zero test, integer overloads and constants) return the exact reduced result. This also holds when the result is one of the operands or the operands are the same object, and no other operand changes; shifts by 1 to bit-length-1 into a separate result are exact too.",
     ["inputs", "configurations"], "every prime of 63 to 768 bits (1 to 12 limbs, with and without a spare top bit), every reduced operand, every aliasing; x86-64 and portable backends", TESTS, ["src/montgomerybuilder.js", "src/asmbuilder.js", "src/add.asm.ejs", "src/sub.asm.ejs", "src/copy.asm.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.hpp.ejs"], [("Montgomery product, register allocation and spilling", "src/montgomerybuilder.js, src/asmbuilder.js"), ("final conditional subtraction", "src/montgomerybuilder.js")], ["Fr_raw*", "RawFr"])
prop("C08", "Raw field class conversions, inverse, division and power are exact",
     "Text in any radix, machine integers, big integers and big-endian byte strings convert to the field and back without loss (byte buffers that are too small are rejected with a negative size and left alone, larger ones round-trip), inverse and division are exact and may work in place, and power accepts a scalar of any byte length. None of the byte, text-parsing and integer conversions leaks the big integers it uses.",
     ["inputs", "configurations"], "every prime of 63 to 768 bits, every value, radices 2 to 36, buffers of any size, scalars of any length, all backends", TESTS, ["src/fr.cpp.ejs"], [("conversions through GMP", "src/fr.cpp.ejs")], ["RawFr::fromString", "RawFr::toRprBE", "RawFr::inv", "RawFr::exp"])
prop("C09", "Field functions touch only their operands and respect the calling convention",
     "No generated function reads or writes memory outside the objects passed to it, writes to an operand that is not its result, or depends on the previous contents of its result or of unspecified register bits. Each preserves the callee-saved registers, the stack pointer and the direction flag.",
     ["inputs", "configurations"], "every function of the tagged and raw API, every representation, every prime of 63 to 768 bits, x86-64 and portable backends", "No test places operands next to unmapped memory or looks at registers.", ["src/*.asm.ejs", "src/asmbuilder.js", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs"], [("register allocation, push/pop pairs", "src/asmbuilder.js"), ("stack temporaries", "src/utils.asm.ejs")], ["all Fr_* functions"])
prop("C10", "The assembly and the portable backend of a field agree",
     "For the same prime, the x86-64 assembly build and the portable build of a field give the same value, text, integer and raw limbs for every operation on the same inputs, and for every sequence of operations. Code built on one can be moved to the other without a change of results.",
     ["inputs", "histories", "configurations"], "every prime of 63 to 768 bits, every operation of both APIs, every representation, random sequences", TESTS, ["src/fr.asm.ejs", "src/fr_generic.cpp.ejs", "src/fr_raw_generic.cpp.ejs", "src/fr.hpp.ejs"], [("two implementations of one API", "src/fr.asm.ejs and src/fr_generic.cpp.ejs")], ["all Fr_* functions in both builds"])
prop("C11", "The generated ARM64 routines are exact and well behaved",
     "Every function of the generated ARM64 assembly returns the exact result for reduced operands (including results stored over an operand). It accesses only its operands, its literals and its stack frame, and preserves the callee-saved registers and the stack pointer.",
     ["inputs", "configurations"], "every prime of 63 to 768 bits, limb counts 1 to 12, with and without a spare top bit, every reduced operand", "There is no ARM64 test at all; each limb count has its own instruction sequences.", ["src/armbuilder.js", "src/fr_raw_arm64.s.ejs"], [("per-width code generators", "src/armbuilder.js")], ["interpretation of the generated assembly text"])
prop("C12", "The field generator produces complete, usable sources for any prime and name",
     "For any prime up to 12 limbs and any identifier as name, the generator's outputs build and link on their backends, define the right constants (limb count, modulus, Montgomery constants, bit length) and are the same on every run. Several generated fields can be linked into one program, and the command line writes the same texts as the programming interface to the files its options name.",
     ["inputs", "configurations"], "every prime, every identifier, every combination of output options", "The test harness builds one hard-coded name and never uses the command line's options.", ["src/buildzqfield.js", "index.js", "src/fr.asm.ejs", "src/fr.hpp.ejs", "src/fr_element.hpp.ejs"], [("template rendering", "src/buildzqfield.js"), ("option handling", "src/buildzqfield.js main")], ["generated files"])
prop("C13", "Quadratic extension arithmetic is exact",
     "For any base field and any constant nr, the quadratic extension's add, sub, neg, dbl, mul, square, mulScalar, conjugate, copy, inv, div (where the divisor is invertible) and, for nr = -1, mulXi (times 9+u) give the exact result in F[x]/(x^2 - nr), and eq, isZero, isOne and the constants are right. The result may be the same object as an operand, other operands do not change, and text (any radix out, decimal in, the constant given as a number or as text) round-trips.",
     ["inputs", "configurations"], "every base prime of 63 to 768 bits, nr = 0, 1, -1, small and any other, every pair of elements, every aliasing of result and operands; x86-64 and portable base fields", "Existing tests use one field with nr = -1 and a few hand-picked values, and are not part of the stable tests.", ["c/f2field.cpp", "c/f2field.hpp"], [("special cases for nr", "c/f2field.cpp"), ("Karatsuba multiplication and complex squaring", "c/f2field.cpp")], ["F2Field"])
prop("C14", "Sextic and twelfth-degree tower arithmetic is exact",
     "In the alt_bn128 tower F2[t]/(t^3 - (9+u)) and F6[w]/(w^2 - t) the degree-6 and degree-12 fields' add, sub, neg, mul, square, inv, div, mulScalar, mulTau, conjugate, copy, exp (scalar of any byte length), Frobenius (the p-th power) and FrobeniusP2 (the p^2-th power), predicates and constants give the exact result. The result may be the same object as an operand, other operands do not change, and text round-trips.",
     ["inputs"], "every element (zero, one, sparse, subfield and dense) of both fields over the alt_bn128 base field, every nonzero divisor, every exponent of 0 to 40 bytes, every aliasing", "Existing tests are not run here and check single hand-made values.", ["c/f6field.cpp", "c/f12field.cpp", "c/exp.hpp"], [("tower formulas", "c/f6field.cpp, c/f12field.cpp"), ("Frobenius constants", "c/f6field.hpp, c/f12field.hpp")], ["F6Field", "F12Field"])
prop("C15", "Elliptic-curve point arithmetic implements the group law",
     "On any nonsingular short Weierstrass curve with b != 0 over any field class, add, sub, dbl, neg, copy, eq, isZero and toString implement the group law for every pair of points: the identity, equal and opposite points, points of order 2 and any projective scaling included. All overloads (projective and affine results and operands) agree, the result may be the same object as an operand, and other operands do not change.",
     ["inputs", "histories", "configurations"], "curves with a = 0, 1, -1, small and any other a, over prime fields of 63 bits and more and quadratic extensions of them; every pair of points in every scaling; random sequences of operations", "Existing tests use one curve and a few fixed points, and are not part of the stable tests.", ["c/curve.cpp", "c/curve.hpp"], [("extended-Jacobian formulas and their special cases", "c/curve.cpp")], ["Curve::add", "Curve::dbl", "Curve::neg", "Curve::sub", "Curve::eq", "Curve::copy", "Curve::isZero", "Curve::toString"])
prop("C16", "Scalar multiplication and the NAF recoding are exact",
     "Multiplying any point (projective or affine, result and base possibly the same object) by any little-endian scalar of one or more bytes gives that multiple of the point; a zero scalar or the identity gives the identity. The non-adjacent form of a scalar of n bytes fills 8(n+2) digits with 0, 1 and 2 (meaning -1), has the value of the scalar and no two adjacent nonzero digits, and neither function reads beyond the scalar.",
     ["inputs", "configurations"], "every scalar of 1 to 80 bytes (NAF: 1 to 200), beyond the group order included, every point, projective and affine bases, several curves", "Existing tests multiply by a few constants.", ["c/naf.cpp", "c/exp.hpp", "c/curve.hpp"], [("signed-digit recoding", "c/naf.cpp"), ("double-and-add over digits", "c/exp.hpp")], ["Curve::mulByScalar", "buildNaf"])
prop("C17", "Pippenger multi-exponentiation equals the sum of products",
     "For any number of points (none and one included), any scalars of one or more bytes and any number of threads, the multi-exponentiation gives the sum of scalar times base, and its variant with columns (nx lengths x) gives the sum over exactly those i with i / nx < x[i % nx]. Inputs are neither changed nor read beyond their ends, the caller's OpenMP thread limit is what it was before, one object may be used repeatedly, and the result does not depend on the number of threads.",
     ["inputs", "schedules", "configurations"], "0 to about a thousand points, scalars of 1 to 72 bytes, 0 (the default) to 17 threads, built with and without OpenMP, repeated, zero, opposite and identity points, curves over prime fields and quadratic extensions", "Existing tests use one size and the default thread count, and are not part of the stable tests.", ["c/multiexp.cpp", "c/multiexp.hpp", "c/curve.hpp"], [("bucket accumulation and reduction across threads", "c/multiexp.cpp")], ["ParallelMultiexp::multiexp", "Curve::multiMulByScalar"])
prop("C18", "The MSM engine equals the sum of products",
     "For any number of points, any scalars of one or more bytes and any size of the thread pool, the windowed multi-scalar multiplication gives the sum of scalar times base, free of data races. Scalars of every bit pattern (all ones and runs of ones included), zero and repeated bases and identity points count, inputs are neither changed nor read beyond their ends, and one object may be used repeatedly.",
     ["inputs", "schedules", "configurations"], "0 to about a thousand points, scalars of 1 to 72 bytes, default pools of 1 to 16 threads, the automatic window size and MSM_BITS_PER_CHUNK of 2 to 16", "No test covers it.", ["c/msm.cpp", "c/msm.hpp", "c/misc.hpp", "c/curve.hpp"], [("signed windows with carries", "c/msm.cpp"), ("thread pool", "c/misc.hpp")], ["MSM::run", "Curve::multiMulByScalarMSM"])
prop("C19", "FFT and inverse FFT evaluate and interpolate",
     "For every transform length 2^k up to the domain the object was made for (1 and 2 included), fft replaces a coefficient vector by its values at the powers of root(k, 1), in order, and ifft is its inverse. root(k, i) is the i-th power of a fixed element of order exactly 2^k (the smallest quadratic non-residue raised to (q-1)/2^k); a domain that is no power of two counts as the largest one below it, one beyond the field's roots of unity is rejected with range_error, and log2 is the floor of the logarithm. Results do not depend on the pool size and there are no data races.",
     ["inputs", "schedules", "configurations"], "fields of various two-adicity (1 to 32 and more), domains 1 to 2^12 (thorough 2^15), every vector, default pools of 1 to 16 threads", "No test covers it.", ["c/fft.cpp", "c/fft.hpp"], [("root computation, bit reversal, butterflies", "c/fft.cpp")], ["FFT::fft", "FFT::ifft", "FFT::root", "FFT::log2"])
prop("C20", "The thread pool runs each piece of work exactly once and always returns",
     "For every range and pool size, parallelFor calls its body with disjoint sub-ranges that cover the range exactly once and distinct thread numbers below the pool size (an empty range calls nothing), and parallelBlock calls its body exactly once per thread number; both return only after every body has finished and its writes are visible. Pools can be created, used repeatedly from one thread and destroyed in any order without deadlock, data race or lost work; divideWork's parts are positive and add up, and log2 of v >= 1 is the floor of the logarithm. Bodies that throw and nested or simultaneous calls on one pool are outside the property.",
     ["schedules", "histories", "inputs"], "ranges of any length and offset, pools of 1 to 16 threads, repeated use, several pools at a time, every order of the synchronisation calls", "No test covers it; lost wake-ups and uneven splits need schedules and sizes that tests do not choose.", ["c/misc.hpp", "c/misc.cpp"], [("worker threads, mutex and condition variables", "c/misc.hpp")], ["ThreadPool::parallelFor", "ThreadPool::parallelBlock", "ThreadPool::divideWork", "log2"])
prop("C21", "Binary container reading returns exactly the bytes of each section",
     "A container whose section headers stay inside the file opens from memory (the buffer is copied) or from disk, and every section (repeated ids by index and empty ones included) has exactly the size and bytes in the file, as do u32, u64 and block reads in order. Exceptions report another type, a version above the given maximum, a truncated or inconsistent section table, a missing file or section, starting a section while one is being read, ending one that is not fully read (unless unchecked) and a read past the end of the file; nothing outside the file is ever read, and no descriptor stays open.",
     ["inputs", "histories", "fault_sequences"], "every list of sections and contents, every sequence of reads, truncation at every byte and corrupted lengths, counts and bytes", "No test covers it.", ["c/binfile_utils.cpp", "c/binfile_utils.hpp"], [("section table and cursor", "c/binfile_utils.cpp")], ["BinFileUtils::BinFile", "BinFileUtils::openExisting"])
prop("C22", "Proving-key and witness headers are read faithfully",
     "For any well-formed proving-key or witness container the header readers return every field (protocol parameters, primes and their sizes, counts, domain size, points) exactly as written, with nCoefs the size of section 4 divided by 12 + n8r, and leave the file ready for further reading. An unsupported protocol, a missing section or a header section that is too short or too long is reported by an exception.",
     ["inputs", "fault_sequences"], "every value of every header field, primes of any size up to 100 bytes, sections in any order", "No test covers it.", ["c/zkey_utils.cpp", "c/wtns_utils.cpp"], [("sequential section parsing", "c/zkey_utils.cpp, c/wtns_utils.cpp")], ["ZKeyUtils::loadHeader", "WtnsUtils::loadHeader"])
prop("C23", "Tuple text splits at the right commas and round-trips",
     "splitParStr(s) of a text with balanced parentheses removes white space and the pairs of parentheses that enclose the whole text, splits at the commas outside parentheses, and strips from each component the pairs that enclose the whole of it; a text without such a comma is one component. F2, F6 and F12 elements and curves are read from their texts the same whatever white space and extra enclosing pairs of parentheses are added, and toString is read back as the same element.",
     ["inputs"], "every nesting of parentheses over ASCII text, every number and length of components, empty ones included", "The existing tests sample six strings.", ["c/splitparstr.cpp", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp"], [("matching of enclosing parentheses", "c/splitparstr.cpp")], ["splitParStr", "toString", "fromString"])

prop("C24", "Everything but the thread pool can be used from many threads at once",
     "Any operations of the tagged and raw fields, the extension fields, curves, the NAF recoding, tuple splitting, multi-exponentiations, container files and headers on objects of their own, and the making of fields, curves and towers, started from several threads at the same time, give the results they give alone. Operands and field and curve objects may be shared as long as nobody changes them (the operations do not); there are no data races.",
     ["schedules", "inputs"], "two to six threads, the same operation on all or a mixture, any shared operands in any representation, both backends, with and without the thread sanitizer; simultaneous calls on one thread pool (MSM, FFT) are outside", "Existing tests are single threaded, and a race shows itself only under contention.", ["src/fr.cpp.ejs", "src/fr_generic.cpp.ejs", "c/f2field.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/curve.cpp", "c/exp.hpp", "c/naf.cpp", "c/splitparstr.cpp", "c/multiexp.cpp", "c/binfile_utils.cpp", "c/zkey_utils.cpp", "c/wtns_utils.cpp"], [("temporaries in automatic storage, constant tables", "the generated source, c/*.cpp")], ["every operation"])
prop("C25", "The alt_bn128 engine is the published curve and its parts fit together",
     "The engine's fields, G1 (y^2 = x^3 + 3, generator (1,2)), G2 (the sextic twist and its standard generator), group order, F6 and F12 are those of alt_bn128, through the global engine, the objects of the namespace and any engine a program makes, whatever becomes of other engines, wherever it is linked and however early (while the program starts) it is used. Scalar multiplication is linear over the scalar field, and committing to a polynomial by its coefficients with powers gives the same point as by its values (FFT) with Lagrange bases, for multi-exponentiation and MSM alike.",
     ["inputs", "configurations", "histories"], "every scalar and polynomial, both backends, the engine's object linked before and after the fields', pools of several sizes, engines created and destroyed in any order", "The repository's own test of the engine needs generated files and libraries the stable tests do not have; constants and start-up order are used by every program.", ["c/alt_bn128.hpp", "c/alt_bn128.cpp", "c/curve.cpp", "c/f6field.cpp", "c/f12field.cpp", "c/fft.cpp", "c/multiexp.cpp", "c/msm.cpp"], [("curve constants and construction order", "c/alt_bn128.hpp, c/alt_bn128.cpp")], ["AltBn128::Engine", "AltBn128::G1", "AltBn128::G2"])
prop("C26", "Finished work leaves no memory, file descriptor or mapping behind",
     "When an operation of the library has returned or thrown, and the objects it was given or made are destroyed, everything it took is given back: memory, file descriptors and file mappings. Repeating any work (arithmetic, text, curves, sums of any size, transforms, pools, engines, reading sound, damaged or missing files) does not make the process grow; an exception thrown as a pointer belongs to the one who catches it.",
     ["histories", "inputs", "fault_sequences"], "every operation and input, failing ones included, repeated any number of times, objects kept or made anew, pools of several sizes", "Tests run each thing once and end.", ["c/multiexp.cpp", "c/msm.cpp", "c/fft.cpp", "c/misc.hpp", "c/binfile_utils.cpp", "c/zkey_utils.cpp", "c/wtns_utils.cpp", "c/exp.hpp", "c/curve.cpp", "src/fr.cpp.ejs"], [("allocation and release of work areas, numbers and files", "c/*.cpp, src/fr.cpp.ejs")], ["every operation"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
