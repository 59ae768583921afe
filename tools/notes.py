# What each check covers, for MANIFEST.json
_ALG = "Exact up to 2^-250 per comparison (symbolic terms against interned values). "
NOTE = {
 "C01": _ALG + "All interleavings of 4 (thorough 6) honest steps of two users, and random runs of 24 steps with storing in between, with numbers of all lengths; not unbounded.",
 "C02": _ALG + "Adversary of Protocol (all single changes, moves, swaps, shifts; random sequences) and of Forge (linear combinations, challenges fixed first, omitted transcript items, guessing); soundness of sigma protocols in general is assumed.",
 "C03": _ALG + "As C02, for roster entries, openings and membership proofs.",
 "C04": _ALG + "As C02, for issuances; the user's whole state is observed after every finish.",
 "C05": _ALG + "All randomness extracted with the issuer's key; repetitions rarer than one in some hundred are missed.",
 "C06": _ALG + "Lengths 0 to 7 exhaustively (thorough 16), up to 33 (65) at random; every change in one or two places.",
 "C07": _ALG + "All single changes, random double ones, all special values, for the five proof systems.",
 "C08": _ALG + "Against an independent implementation of the transcript, in both directions.",
 "C09": _ALG + "All ways to make and open one or two commitments, random sequences of ten.",
 "C10": _ALG + "All ways to encrypt, add and decrypt one or two ciphertexts, random sequences of nine.",
 "C11": "All numbers up to 3 (thorough 5) digits, all lengths in runs, random ones, their neighbours, and non-numbers; the layout is specified digit by digit.",
 "C12": "23 types; classes of values per slot; nine ways to decode and six to encode. Canonicity of points and scalars is judged by curve25519-dalek.",
 "C13": "23 types; every slot with every class of bad value, lengths, cuts, extensions, up to 4 defects; byte strings outside of these classes at random only.",
 "C14": _ALG + "All lives of up to 3 (thorough 4) steps with copies restored later, random long ones, bytes that are zero produced on purpose.",
 "C15": "Every function with every argument spoilt in every listed way, random sequences of 60 calls; run natively against credential.h.",
 "C16": "Heap memory as it is freed, and values after drop_in_place, in 20 ways of dropping; copies left by moves are out of scope.",
 "C17": "All scripts of 2 (thorough 3) blocks, runs of 300 (5000); dependence on and distribution of the generator's bits are statistical (7 sigma).",
 "C18": "As C13, through bincode, JSON and a sequence deserialiser, nested and not.",
 "C19": "As C15; the crate is compiled natively against a stand-in for wasm-bindgen.",
 "C20": "All lives of 4 operations on short byte strings, random ones of 40; build-test's own functions, called from C's side of the ABI.",
 "C21": _ALG + "All ways to write each operation on five scalars and four points; pairs of objects of every comparable type that differ in one component or none; random messages and strings.",
 "C22": _ALG + "All single operations that can be refused, in a world with defective parties, random histories of twelve; all error kinds. Refusals of undecodable bytes are not asked for reasons.",
}
