"""How each property is decided: which models, which scenarios, which traces."""
import json, os, re, subprocess
from vlib import *


def C06(c):
    inv = ["VerifiesExactly", "MakesExactly"]
    sc = c.model("Mac", {"MaxSteps": 2, "MaxLen": 2, "Sim": "FALSE"}, inv, "all behaviours with up to two constructions of tags")
    si = c.model("Mac", {"MaxSteps": 8, "MaxLen": 3, "Sim": "TRUE"}, inv, "long random behaviours", sim=60 if quick() else 1500, depth=12)
    lg = c.model("MacLong", {"MaxLen": 7 if quick() else 16, "Longer": "{}", "Sim": "FALSE"}, ["ExactlyTheSame", "NoOtherLength"], "messages of every length, and every change to one or two elements of message or key")
    ll = c.model("MacLong", {"MaxLen": 16 if quick() else 40, "Longer": "{}", "Sim": "TRUE"}, ["ExactlyTheSame", "NoOtherLength"], "long messages", sim=12 if quick() else 150, depth=3)
    l3 = c.model("MacLong", {"MaxLen": 0, "Longer": "{17, 18, 24, 33}" if quick() else "{17, 18, 31, 32, 33, 48, 64, 65}", "Sim": "TRUE"}, ["ExactlyTheSame", "NoOtherLength"], "longer messages", sim=5 if quick() else 60, depth=3)
    big = c.model("MacBig", {"Sizes": "{64, 129, 257}" if quick() else "{64, 127, 128, 129, 255, 256, 257, 300}", "Sim": "TRUE"}, ["ExactlyTheSame"], "messages of very many elements", sim=4 if quick() else 40, depth=3)
    c.replay(c.sample(sc, 250 if quick() else 10**6) + c.sample(si, 10**6) + c.sample(lg, 10**6) + c.sample(ll, 10**6) + c.sample(l3, 10**6) + c.sample(big, 10**6), "algebraic MACs")
    if not quick():
        c.mutants("Mac", {"MaxSteps": 2, "MaxLen": 2, "Sim": "FALSE"}, inv, ["MacIdentity"])
    bulk(c, ["mac"], ("mac", "check", "recheck"), 60000, fresh=True)


PROTOCOL = ["Agree", "Exact", "Returned", "Honest", "SavedEqual"]


def st(*xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def proto(c, what, world, steps, acts, final, target=("pres",), sim=None, luck=False, endurance=0, **kw):
    return c.model("Protocol", {"World": st(*world), "MaxSteps": steps, "Acts": st(*acts), "Final": st(*final), "TargetTypes": st(*target),
                                "Sim": "TRUE" if sim else "FALSE", "Luck": "TRUE" if luck else "FALSE", "Endurance": endurance}, PROTOCOL, what, sim=sim, depth=steps + 3 if sim else None, **kw)


def merge(scs, k):
    """Scenarios that begin alike, and do not change what they begin with, one after the other in a single one."""
    if len(scs) < 2:
        return scs
    n = 0
    while all(len(s["ops"]) > n and s["ops"][n] == scs[0]["ops"][n] for s in scs):
        n += 1
    while True:      # what all of them begin with, as far as none of them sets it again
        sets = {o.get("o") for s in scs for o in s["ops"][n:]}
        if n == 0 or scs[0]["ops"][n - 1].get("o") not in sets:
            break
        n -= 1
    return [{"ops": scs[j]["ops"][:n] + [o for s in scs[j:j + k] for o in s["ops"][n:]]} for j in range(0, len(scs), k)]


def forge(c, goals, n):
    sc = c.model("Forge", {"Goals": st(*goals), "Coeffs": "{0, 1, 3}" if quick() else "{0, 1, 2, 3, -1}", "MaxNonZero": 2 if quick() else 3, "Sim": "FALSE"}, ["Forged"],
                 "fabrications from linear combinations of what is known, with correctly computed proofs")
    few = [x for x in sc if x.count("p_mul") <= 9]
    return merge(c.sample(few, n) + c.sample([x for x in sc if x.count("p_mul") > 9], n), 12)


def shifts(c, world, final, target, n):
    a = proto(c, "every shift of a point with the responses that might go with it", [world], 1, ("shift",), final, target=target)
    return merge(c.sample(a, n if quick() else 10**6), 10)


def C01(c):
    acts = ("issue", "honestfin", "honestshow", "ros")
    a = proto(c, "all interleavings of two honest users and an issuer", ["fresh"], 4 if quick() else 6, acts, ["own"])
    b = proto(c, "long random honest runs, with saving and restoring of parties and messages", ["honest"], 24, acts + ("sav", "savusr", "copy"), ["own"],
              sim=80 if quick() else 1500)
    d = proto(c, "hundreds of presentations by a few users", ["shown", "honest"], 9, acts + ("savusr",), ["endure"], sim=4 if quick() else 8, endurance=270 if quick() else 1100)
    c.replay(c.sample(a, 150 if quick() else 4000) + c.sample(b, 10**6) + c.sample(d, 10**6), "honest runs")
    bulk(c, ["honest"], ("issue", "accept", "entry", "open", "show", "verify", "member", "restore"), 24000)


def C02(c):
    f = ["ver"]
    a = proto(c, "every single change to a presentation", ["shown"], 1, ("alter", "moves", "swap", "scale", "splice"), f)
    b = proto(c, "every field of any message in place of another", ["shown"], 1, ("move",), f)
    d = proto(c, "random changes to presentations of several issuers and parameters", ["many"], 3,
              ("alter", "move", "moves", "swap", "scale", "splice", "show", "flip", "fin", "sav"), ["ver", "aver", "verx", "bad", "vros"],
              target=("pres", "apres"), sim=80 if quick() else 2000)
    e = proto(c, "everything a wrong user can do", ["many"], 1, ("show", "fin", "copy"), f)
    x = proto(c, "presentations with any number of blinded and revealed attributes", ["many"], 1, ("show",), ["verx"], sim=30 if quick() else 600)
    c.replay(merge(c.sample(a, 400 if quick() else 10**6), 10) + merge(c.sample(b, 300 if quick() else 10**6), 10) + c.sample(d, 10**6) + c.sample(e, 30 if quick() else 500) + c.sample(x, 10**6)
             + forge(c, ("credential", "trivial"), 200 if quick() else 3000)
             + shifts(c, "shown", f, ("pres", "apres"), 10**6) + forge(c, ("adaptive_credential", "guess_credential"), 10**6), "presentations")
    if not quick():
        c.mutants("Forge", {"Goals": st("credential"), "Coeffs": "{0, 1}", "MaxNonZero": 1, "Sim": "FALSE"}, ["Forged"], ["VerifyIdentity"])
    bulk(c, ["altered"], ("verify",), 16000)


def C03(c):
    f = ["vros"]
    a = proto(c, "every single change to a presentation", ["shown"], 1, ("alter", "moves", "swap", "scale", "splice", "show"), f)
    b = proto(c, "every field of any message in place of another", ["shown"], 1, ("move",), f)
    d = proto(c, "random entries and changes, with several issuers and parameters", ["many"], 4,
              ("alter", "move", "moves", "swap", "scale", "splice", "show", "show", "mix", "ros", "ver", "flip"), ["vros", "bad"],
              sim=80 if quick() else 2000)
    e = proto(c, "every user with every entry", ["many"], 1 if quick() else 2, ("show", "mix", "ros", "ver"), f)
    c.replay(merge(c.sample(a, 400 if quick() else 10**6), 10) + merge(c.sample(b, 300 if quick() else 10**6), 10) + c.sample(d, 10**6) + c.sample(e, 60 if quick() else 1500)
             + forge(c, ("roster", "trivial"), 200 if quick() else 3000)
             + shifts(c, "shown", f, ("pres",), 10**6) + forge(c, ("adaptive_roster", "guess_roster"), 10**6), "roster membership")
    bulk(c, ["altered"], ("member",), 16000)


def C04(c):
    f = ["fin", "use"]
    a = proto(c, "every single change to an issuance", ["one"], 1, ("alter", "moves", "swap", "scale", "isplice"), f, target=("iss",))
    b = proto(c, "every field of any issuance in place of another", ["one"], 1, ("move",), f, target=("iss",))
    d = proto(c, "random issuances and changes, with several issuers and parameters", ["issued"], 5,
              ("alter", "moves", "swap", "scale", "isplice", "issue", "fin", "honestfin", "none", "flip", "copy", "sav"), ["bad", "fin", "finx", "use"],
              target=("iss",), sim=80 if quick() else 2000)
    e = proto(c, "every issuance given to every user, twice", ["issued"], 2, ("fin", "none"), ["use"], target=("iss",))
    x = proto(c, "issuances with any number of attributes", ["one"], 1, ("fin", "none"), ["finx", "use"], target=("iss",))
    c.replay(c.sample(a, 120 if quick() else 4000) + c.sample(b, 80 if quick() else 2000) + c.sample(d, 10**6) + c.sample(e, 80 if quick() else 1500) + c.sample(x, 10**6)
             + forge(c, ("issuance",), 150 if quick() else 2000)
             + shifts(c, "one", f, ("iss",), 10**6) + forge(c, ("adaptive_issuance", "guess_issuance"), 10**6), "issuances")
    bulk(c, ["refused"], ("issue", "accept"), 20000)


def C05(c):
    inv = ["Distinct", "Unrelated", "Independent", "Varied", "Works"]
    k = lambda steps, pairs, kinds, sim, single=10**3: {"MaxSteps": steps, "MaxPairs": pairs, "Single": single, "Kinds2": st(*kinds), "Sim": sim}
    all_ = ("show", "ashow", "issue", "entry", "tag", "key", "sav")
    a = c.model("Fresh", k(2, 10**6, all_, "FALSE"), inv, "all pairs of messages")
    b = c.model("Fresh", k(9, 120, all_ + ("show", "issue"), "TRUE"), inv, "long random sequences of messages", sim=40 if quick() else 600, depth=12)
    d = c.model("Fresh", k(100, 10, ("many",), "TRUE") if quick() else k(900, 10, ("many", "rosmany"), "TRUE"), inv, "many presentations by one user", sim=3, depth=14)
    e = c.model("Fresh", k(60, 10, ("rosmany",), "TRUE"), inv, "many requests for the same numbers", sim=2, depth=4)
    f = c.model("Fresh", k(7, 10, all_[:-1], "TRUE", 2 * 10**9), inv, "random numbers, and their differences, below two thousand million", sim=4 if quick() else 60, depth=12)
    c.replay(c.sample(a, 80 if quick() else 10**6) + c.sample(b, 10**6) + c.sample(d, 10) + c.sample(e, 10) + c.sample(f, 10**6), "freshness")
    s = c.model("Params", {"Sim": "FALSE", "Mode": '"depend"', "MaxLen": 1 if quick() else 6, "MaxOps": 1}, ["Sound", "First"],
                "how much of what the generator yields every random number in a message depends on")
    c.replay(c.sample(s, 10**6), "dependence of random numbers", module="ParamsTrace", command="params")
    c.mutants("Fresh", k(2, 30, ("show",), "FALSE"), inv, ["ShowNoRerandomize", "ShowSameNonce", "ShowFixedZQ"])
    bulk(c, ["honest", "refused"], (), 24000, fresh=True)


def C08(c):
    inv = ["Interoperable", "Distinct", "Unrelated", "Binding"]
    k = lambda n, pairs, sim: {"TestKinds": KINDS, "MaxProofs": n, "MaxPairs": pairs, "Sim": sim}
    a = c.model("Blinding", k(1, 10**6, "FALSE"), inv, "every statement, also degenerate, proved and verified by the library and by an independent implementation")
    b = c.model("Blinding", k(8, 150, "TRUE"), inv, "many proofs of the same statement", sim=60 if quick() else 1000, depth=12)
    w = c.model("Wired", {"MaxSteps": 2 if quick() else 3, "Sim": "FALSE"}, ["Finished", "Context"], "the proofs inside of the messages of the protocol")
    c.replay(c.sample(a, 10**6) + c.sample(b, 10**6) + c.sample(w, 60 if quick() else 10**6), "challenges and blinding factors")
    bulk(c, ["proof"], (), 12000, fresh=True)


def C09(c):
    inv = ["Opens", "Afresh"]
    a = c.model("Commit", {"MaxSteps": 2, "MaxChecks": 10**6, "Sim": "FALSE"}, inv, "all ways to make one or two commitments and all ways to open them")
    b = c.model("Commit", {"MaxSteps": 10, "MaxChecks": 40, "Sim": "TRUE"}, inv, "long random sequences, with random numbers", sim=100 if quick() else 2000, depth=16)
    c.replay(c.sample(a, 150 if quick() else 10**4) + c.sample(b, 10**6), "commitments")
    bulk(c, ["entry"], ("entry", "open"), 60000, fresh=True)


def blind(c):
    return c.model("Blind", {"Attributes": st("rand", "zero", "one", "minus", "phone"), "Sim": "FALSE"}, ["RequestProven", "AnswerProven", "BlindMac", "Shown"],
                   "issuing by the homomorphism, without learning the attribute; users and issuers who deviate")


def C10(c):
    inv = ["Decrypts", "OtherKey", "PublicKey"]
    a = c.model("Elgamal", {"MaxSteps": 2, "Sim": "FALSE"}, inv, "one or two ciphertexts of everything under every key")
    b = c.model("Elgamal", {"MaxSteps": 9, "Sim": "TRUE"}, inv, "long random sequences", sim=100 if quick() else 2000, depth=16)
    bl = blind(c)
    c.replay(c.sample(a, 300 if quick() else 10**4) + c.sample(b, 10**6) + c.sample(bl, 250 if quick() else 10**4), "ElGamal")
    bulk(c, ["elgamal"], ("decrypt", "form"), 60000)


TYPES = st("Tag", "MacPublicKey", "MacSecretKey", "MacKeypair", "Credential", "CredentialRequest", "CredentialIssuance",
           "CredentialPresentation", "VerifiedCredential", "ElgamalPublicKey", "ElgamalSecretKey", "ElgamalKeypair",
           "SystemParameters", "Commitment", "Issuer", "SignalIssuer", "User", "SignalUser", "PhoneNumber",
           "CommittedPhoneNumber", "RosterEntryCommitment", "SignalCredentialPresentation", "VerifiedSignalCredential")


def wire_models(c, what, types=TYPES, defects=1, sim=0, simdefects=2, n=2):
    """Byte strings for decoders: [exhaustive over the classes, random]"""
    k = lambda d, s: {"Sim": s, "MaxDefects": d, "MaxN": n, "TestTypes": types, "MaxNear": 0, "Large": "{}", "Mutation": None}
    a = c.model("WireModel", k(defects, "FALSE"), ["Sizes", "RoundTrip", "OneLength"], what)
    b = c.model("WireModel", k(simdefects, "TRUE"), ["Sizes", "RoundTrip", "OneLength"], what + ", at random", sim=sim, depth=simdefects + 3)
    return a, b


def wire(c, scs, what, k=25):
    """Independent operations are put together in scenarios of k."""
    independent(c, scs, what, "WireTrace", "wire", k)


def near(c, sim, types=TYPES):
    """Byte strings that are almost the same, one right after the other"""
    a = c.model("WireModel", {"Sim": "TRUE", "MaxDefects": 0, "MaxN": 3, "TestTypes": types, "MaxNear": 20, "Large": "{}", "Mutation": None}, ["Sizes", "RoundTrip", "OneLength"],
                "byte strings that are almost the same, one after the other", sim=sim, depth=24)
    c.replay(c.sample(a, 10**6), "almost the same again", module="WireTrace", command="wire", invariants=["Judge"])


def large(c, defects, sim):
    """Keys and requests of many elements: lengths that do not fit into a byte, or two"""
    some = "{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300%s}" % ("" if quick() else ", 511, 512, 513, 1000, 2047, 2048, 2049")
    a = c.model("WireModel", {"Sim": "TRUE", "MaxDefects": defects, "MaxN": 0, "TestTypes": st("MacPublicKey", "MacSecretKey", "MacKeypair", "CredentialRequest", "Issuer", "SignalIssuer"),
                              "MaxNear": 0, "Large": some, "Mutation": None}, ["Sizes", "RoundTrip", "OneLength"], "byte strings of many elements", sim=sim, depth=defects + 3)
    wire(c, c.sample(a, 10**6), "many elements", k=2)


def bulk(c, kinds, judged, n, fresh=False):
    """n / 3 trials (thorough: 100 n, in an optimised build) of some kinds, for what happens only now and then"""
    size, batches, shards = (125, 4, 8) if quick() else (400, 10, 40)
    count = -(-(n // 3 if quick() else n * 100) // (size * batches))
    k = lambda sim, b, ks: {"Sim": sim, "Kinds": st(*ks), "Batches": b, "Size": size}
    c.model("BulkModel", k("FALSE", 1, kinds), ["Sound", "Harmed"], "every walk of up to three steps through a trial")
    if not quick():
        c.mutants("BulkModel", k("FALSE", 1, kinds), ["Sound", "Harmed"], ["Lenient"])
    a = c.model("BulkModel", k("TRUE", batches, kinds), ["Sound"], "batches of trials", sim=max(count, 8), depth=batches + 2)
    c.replay(c.sample(a, 10**6), "%d trials" % (len(a) * size * batches), module="BulkTrace", command="bulk", args=() if quick() else ("--release",), invariants=["Judge"],
             constants={"Judged": st(*judged), "Fresh": "TRUE" if fresh else "FALSE"}, trace_timeout=800 if quick() else 10000)


def independent(c, scs, what, module, command, k=25, **kw):
    ops = [o for s in scs for o in s["ops"]]
    c.replay([{"ops": ops[i:i + k]} for i in range(0, len(ops), k)], what, module=module, command=command, invariants=["Judge"], **kw)


def pick(lines, *subs):
    return [l for l in lines if any(s in l for s in subs)]


def C12(c):
    a, b = wire_models(c, "objects of every type, with special values", sim=1500 if quick() else 30000)
    c.cov["types"] = 23
    valid = pick(a, r'\"expect\":\"ok\"')
    wire(c, c.sample([x for x in valid if "~" not in x], 10**6) * (3 if quick() else 60) + c.sample(pick(valid, "~"), 10**6) * (1 if quick() else 20) + c.sample(a, 2500 if quick() else 10**5) + c.sample(b, 10**6), "encodings")
    near(c, 50 if quick() else 2000)
    large(c, 0, 40 if quick() else 400)
    d = proto(c, "parties and messages saved and restored in the middle of it all", ["honest", "many"], 10, ("issue", "honestfin", "honestshow", "ros", "sav", "ver", "copy"),
              ["own", "vros"], sim=40 if quick() else 800, luck=True)
    c.replay(c.sample(d, 10**6), "saved and restored parties and messages")
    bulk(c, ["honest", "mac", "keys", "elgamal", "entry"], ("restore",), 20000)


def C13(c):
    a, b = wire_models(c, "byte strings of every type, with something wrong", sim=3000 if quick() else 60000)
    d = c.model("WireModel", {"Sim": "TRUE", "MaxDefects": 4, "MaxN": 6, "TestTypes": TYPES, "MaxNear": 0, "Large": "{}", "Mutation": None}, ["Sizes", "RoundTrip", "OneLength"],
                "byte strings with much wrong", sim=1000 if quick() else 20000, depth=7)
    bad = pick(a, r'\"expect\":\"err\"', r'\"expect\":\"?\"')
    wire(c, c.sample(bad, 10**6) + c.sample(b, 10**6) + c.sample(d, 10**6), "malformed input")
    near(c, 120 if quick() else 4000)
    large(c, 1, 60 if quick() else 1000)
    bulk(c, ["bits"], ("decode",), 12000)


def C18(c):
    a, b = wire_models(c, "byte strings of every type, and ways to wrap them", sim=1500 if quick() else 30000)
    wr = pick(a, r'\"op\":\"wrapped\"', r'\"op\":\"ends\"')
    wire(c, c.sample(wr, 10**6) + c.sample(pick(a, r'\"expect\":\"ok\"'), 10**6) * 2 + c.sample(a, 2500 if quick() else 10**5) + c.sample(b, 10**6), "serde")
    large(c, 0, 40 if quick() else 400)
    bulk(c, ["honest", "mac", "keys", "elgamal", "phone"], ("restore",), 12000)


def C14(c):
    acts = ("fin", "none", "savusr", "copy", "revert", "show", "icopy")
    a = []
    for w in ("life", "lifekey", "alife", "alifekey"):
        x = proto(c, "all short lives of a user (%s), with copies of it and of the issuer" % w, [w], 3 if quick() else 4, acts, ["useall"], luck=True)
        a += c.sample(x, 45 if quick() else 2000)
    b = proto(c, "long random lives of many users and issuers", ["issued", "many", "honest"], 16, ("issue", "honestfin", "sav", "savusr", "copy", "ver") + acts, ["use", "own", "bad"],
              target=("iss",), sim=70 if quick() else 1500, luck=True)
    c.replay(a + c.sample(b, 10**6), "lives of parties that are saved and restored")
    stateful = st("User", "SignalUser", "Issuer", "SignalIssuer", "SystemParameters", "MacKeypair", "ElgamalKeypair", "Credential")
    near(c, 40 if quick() else 2000, stateful)
    w, v = wire_models(c, "parties, with special values, and values that are related to one another", types=stateful, sim=400 if quick() else 10000)
    wire(c, c.sample(pick(w, r'\"expect\":\"ok\"'), 10**6) + c.sample(v, 10**6), "saved parties")
    bulk(c, ["honest"], ("show", "verify", "member", "accept", "restore"), 12000)


def C11(c):
    inv = ["Distinct", "Fits", "Reversible", "Unique"]
    k = lambda s, a, n, shape: {"Sim": s, "Alphabet": a, "MaxLen": n, "Shape": '"%s"' % shape, "Mutation": None}
    al = "{%s}" % ", ".join(map(str, range(10)))
    a = c.model("PhoneModel", k("FALSE", al, 3 if quick() else 5, "all"), inv, "all short numbers")
    b = c.model("PhoneModel", k("FALSE", "{0, 5}" if quick() else "{0, 1, 9}", 28, "runs"), inv, "numbers of every length, of one or two runs of digits, their neighbours, and what is no number")
    d = c.model("PhoneModel", k("TRUE", al, 30, "any"), inv, "random numbers, their neighbours, and what is no number", sim=2500 if quick() else 60000, depth=32)
    independent(c, c.sample(a, 2000 if quick() else 10**6) + c.sample(b, 4000 if quick() else 200000) + c.sample(d, 10**6), "phone numbers", "PhoneTrace", "phone")
    bulk(c, ["phone"], ("number",), 40000)


def api(c, kind, crate, what):
    inv = ["AllSound", "HonestRun", "Documented"]
    k = lambda s, n, w, f="TRUE": {"Sim": s, "Kind": '"%s"' % kind, "MaxCalls": n, "Faulty": f, "World": '"%s"' % w}
    a = c.model("ApiModel", k("FALSE", 1, "full"), inv, "every call of every function, with all arguments there are, or with one of them spoilt", properties=["Retained"])
    b = c.model("ApiModel", k("TRUE", 60, "empty"), inv, "long random sequences of calls, from nothing, with everything retained", sim=80 if quick() else 2000, depth=70)
    d = c.model("ApiModel", k("TRUE", 25, "full"), inv, "random sequences of calls, with spoilt arguments", sim=120 if quick() else 3000, depth=40)
    args = dict(module="ApiTrace", command="api", crate=crate, constants={"Kind": '"%s"' % kind})
    flips = pick(a, r'\"flip\"')
    c.replay(merge(c.sample(a, 10**6) + c.sample(flips, 10**6) * (12 if quick() else 300), 24), "single calls of " + what, **args)
    c.replay(c.sample(b, 10**6) + c.sample(d, 10**6), "sequences of calls of " + what, **args)
    if not quick():
        m = {x: y for x, y in k("FALSE", 1, "full").items()}
        r = tlc("ApiModel", cfg(dict(m, Mutation='{"Overwrite"}'), invariants=inv, properties=["Retained"]), expect_ok=False)
        if r.rc == 0:
            raise ToolError("the model does not notice that results are overwritten")


def interface(c):
    """Can a C program be compiled with the header, and linked with the library?"""
    try:
        c.bin("capi")
        return True
    except ToolError as e:
        x = re.search(r"(src/shim.c:.*error:.*|undefined reference to .*|undefined symbol.*|multiple definition of .*)", str(e))
        if not x:
            raise
        c.violate("a C program cannot be compiled with credential.h and linked with the library any more: " + x.group(1), {"module": "ApiTrace", "build": "capi"})
        return False


def C15(c):
    if not interface(c):
        return
    api(c, "c", "capi", "the C API")


def C19(c):
    api(c, "js", "jsapi", "the JavaScript API")


def C16(c):
    inv = ["Wiped", "Kept", "Apart"]
    k = lambda sim, vals, ops, n, small="FALSE": {"Sim": sim, "MaxVals": vals, "MaxOps": ops, "MaxN": n, "TestTypes": ERASE_TYPES, "TestWays": ERASE_WAYS, "Small": small}
    a = c.model("Erasure", k("FALSE", 2, 4, 3 if quick() else 8), inv, "every type, size, and way to drop a value or its clone")
    b = c.model("Erasure", k("TRUE", 8, 24, 12), inv, "long random lives of many values", sim=120 if quick() else 3000, depth=1000)
    l = c.model("Erasure", k("FALSE", 1, 2, 130 if quick() else 300, "TRUE"), inv, "large keys, and many nonces")
    c.mutants("Erasure", k("FALSE", 2, 4, 2, "TRUE"), inv, ["SkipTail", "SkipHead", "CopyWiped", "OwnOnly", "SharedClone", "FreeFirst"])
    args = dict(module="ErasureTrace", command="erase", invariants=["Judge"])
    c.replay(c.sample(a, 6000 if quick() else 10**6) + c.sample(b, 10**6) + c.sample(l, 10**6), "erasure", **args)
    # What is never read again needs not be written, as far as an optimising compiler is concerned.
    c.replay(c.sample(a, 3000 if quick() else 10**6) + c.sample(b, 60 if quick() else 10**6), "erasure, in an optimised build", args=("--release",), **args)


def C17(c):
    inv = ["Sound", "First", "Deterministic", "Distinct"]
    k = lambda sim, mode, n, ops: {"Sim": sim, "Mode": '"%s"' % mode, "MaxLen": n, "MaxOps": ops}
    a = c.model("Params", k("FALSE", "hunt", 2 if quick() else 3, 2), inv, "everything that a generator can yield first")
    a2 = c.model("Params", k("TRUE", "hunt", 12, 8), inv, "several parameters from one generator, after things that are not suitable", sim=400 if quick() else 10000, depth=100)
    r = c.model("Params", k("FALSE", "runs", 300 if quick() else 5000, 2), inv, "long runs of things that are not suitable")
    b = c.model("Params", k("FALSE", "draw", 1, 4), inv, "short sequences of everything that draws, on two generators, or two copies of one")
    d = c.model("Params", k("TRUE", "draw", 1, 24), inv, "long random sequences on several generators and copies of them", sim=150 if quick() else 4000, depth=400)
    s = c.model("Params", k("FALSE", "single", 1 if quick() else 6, 1), inv, "distribution, and dependence on what the generator yields, of everything that is drawn")
    c.mutants("Params", k("FALSE", "hunt", 3, 2), inv, ["NoIdentityCheck", "NoBasepointCheck", "Masked", "GiveUp"])
    c.mutants("Params", k("FALSE", "draw", 1, 3), inv, ["Twice", "Fixed"])
    args = dict(module="ParamsTrace", command="params")
    c.replay(c.sample(a, 2000 if quick() else 10**6) + c.sample(a2, 10**6) + c.sample(r, 700 if quick() else 10**6), "system parameters", **args)
    c.replay(c.sample(b, 1500 if quick() else 10**5) + c.sample(d, 10**6), "secrets", **args)
    c.replay(c.sample(s, 10**6), "dependence and distribution of secrets", **args)
    bulk(c, ["keys"], ("parameters", "keypair", "elgamal"), 30000, fresh=True)


def C20(c):
    inv = ["Intact", "Apart"]
    k = lambda sim, ops, n: {"Sim": sim, "MaxOps": ops, "MaxLen": n}
    a = c.model("Buffers", k("FALSE", 4, 3 if quick() else 5), inv, "short lives of buffers, of all short byte strings of two bytes")
    b = c.model("Buffers", k("TRUE", 40, 70), inv, "long random lives of many buffers", sim=150 if quick() else 4000, depth=60)
    c.mutants("Buffers", k("FALSE", 3, 2), inv, ["Alias", "Static", "CString"])
    c.replay(c.sample(a, 6000 if quick() else 200000) + c.sample(b, 10**6), "exported buffers", module="BuffersTrace", command="buffers", crate="cbuf")


ERASE_TYPES = st("key", "keypair", "issuer", "sissuer", "eph", "nonces", "rer", "esk", "ekeypair", "user", "suser", "roster")
ERASE_WAYS = st("box", "place", "scope", "unwind", "thread", "rc", "arc", "vec", "slice", "iter", "truncate", "clear", "drain", "deque",
                "map", "option", "none", "tuple", "result", "closure")


def replay_file(f):
    x = json.load(open(f))
    c = Check(x["property"])
    if "build" in x:
        interface(c)
        for w, p in c.violations:
            print(w)
        return 1 if c.violations else 0
    how = x.get("mode", "plain")
    c.one_process = x.get("history", False)
    c.replay(x.get("scenarios") or [x["scenario"]] * (8 if how == "parallel" else 1), "replay", mode=how, module=x["module"], command=x.get("command", "machine"), crate=x.get("crate", "harness"), args=tuple(x.get("args", ())), constants=x.get("constants"),
             invariants=[] if x["module"] in ("MachineTrace", "ApiTrace", "ParamsTrace", "BuffersTrace") else ["Judge"])
    for w, p in c.violations:
        print(w)
    return 1 if c.violations else 0


KINDS = '{"issuance_revealed", "attributes_blinded", "issuance_blinded", "valid_credential", "committed_values_equal"}'


def C07(c):
    inv = ["Complete", "Sound", "SoundAlways", "SameVerdict"]
    sc = c.model("Proofs", {"TestKinds": KINDS, "MaxChanges": 1, "Sim": "FALSE", "Rich": "FALSE" if quick() else "TRUE"}, inv,
                 "all proofs with at most one change before verification")
    si = c.model("Proofs", {"TestKinds": KINDS, "MaxChanges": 2, "Sim": "TRUE", "Rich": "TRUE"}, inv, "random proofs with two changes",
                 sim=400 if quick() else 5000, depth=12)
    s1 = c.model("Proofs", {"TestKinds": KINDS, "MaxChanges": 1, "Sim": "TRUE", "Rich": "TRUE"}, inv, "random proofs with one change",
                 sim=400 if quick() else 5000, depth=12)
    bl = blind(c)
    c.replay(c.sample(sc, 1500 if quick() else 60000) + c.sample(si, 10**6) + c.sample(s1, 10**6) + c.sample(bl, 150 if quick() else 10**4), "proof systems")
    bulk(c, ["proof"], ("proof",), 16000)


def C21(c):
    inv = ["Linear", "Commitments2", "Converted", "Equal"]
    a = c.model("Arith", {"Part": st("laws"), "Sim": "FALSE"}, inv, "products of all values in all forms")
    b = c.model("Arith", {"Part": st("equal"), "Sim": "FALSE"}, inv, "objects that differ in at most one component, of every type that can be compared")
    r = c.model("Arith", {"Part": st("laws"), "Sim": "TRUE"}, inv, "random messages, strings and numbers", sim=60 if quick() else 1500, depth=5)
    c.replay(c.sample(a, 100 if quick() else 10**4) + c.sample(r, 10**6) + c.sample(b, 1200 if quick() else 10**5), "operators, conversions, comparisons")


def C22(c):
    inv = ["AsPredicted", "NothingElse"]
    a = c.model("Refusals", {"MaxSteps": 1, "Sim": "FALSE"}, inv, "everything that can be refused, for every reason or several at once")
    r = c.model("Refusals", {"MaxSteps": 12, "Sim": "TRUE"}, inv, "histories of refusals and successes", sim=60 if quick() else 2500, depth=15)
    m = c.model("MacLong", {"MaxLen": 3 if quick() else 8, "Longer": "{}", "Sim": "FALSE"}, ["ExactlyTheSame", "NoOtherLength"], "messages of every length, and every change to one or two elements of message or key")
    p = proto(c, "whatever the network changes", ["many"], 3, ("alter", "move", "moves", "swap", "scale", "show", "fin", "sav"), ["ver", "aver", "verx", "vros"],
              target=("pres", "apres"), sim=25 if quick() else 800)
    q = proto(c, "issuances that the network changes", ["one"], 1, ("alter", "moves", "swap", "scale", "isplice", "none"), ["fin", "finx"], target=("iss",))
    c.replay(merge(c.sample(a, 10**6), 15) + c.sample(r, 10**6) + c.sample(m, 60 if quick() else 10**5) + c.sample(p, 10**6) + merge(c.sample(q, 120 if quick() else 10**6), 10), "reasons of refusals", constants={"Explained": "TRUE"})
