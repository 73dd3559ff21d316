# What each property's check runs.
CHECKS = {}
def check(pid, rule, *runs, **kw):
    CHECKS[pid] = dict(rule=rule, runs=list(runs), **kw)
def run(harness, variant="asan", **kw):
    return dict(dict(harness=harness, variant=variant, scale=5), **kw)


R_DIFF = "Cases are drawn from the seed; an observation is one output compared with the reference model. Non-trivial and distinct: differs in the configuration or in the (hashed) input and output. "
check("P01", R_DIFF, run("modes", part="block"))
check("P02", R_DIFF, run("modes", part="modes"), run("modes", part="big"))
check("P05", R_DIFF, run("digest", part="seq"), run("digest", part="keyed"), run("digest", "fast", part="large", scale=1, limit=900))
check("P06", R_DIFF, run("digest", part="tree"))
check("P07", R_DIFF, run("mac", part="mac"), run("mac", part="oneshot"))
check("P08", R_DIFF, run("kdf", part="stream"), run("kdf", part="extract"), run("kdf", part="long", scale=2), run("kdf", part="limit"), run("kdf", part="memory", variant="fast", thorough_only=True, scale=1))
check("P03", R_DIFF + "A forgery counts when it was refused and released nothing. ", run("stream", part="aead"), run("stream", part="tamper"), run("stream", part="refused"), run("stream", part="renonce"), run("stream", "fast", part="large", scale=1))
check("P04", R_DIFF, run("stream", part="plain"), run("stream", part="state"))
check("P09", R_DIFF, run("drbg", part="gen"), run("drbg", part="limit", scale=1))
check("P10", "An observation is one request judged (range, repetition, response to an altered or failed source, uniformity). Non-trivial and distinct: differs in source, form or the hashed output. ",
      run("random", part="fill"), run("random", part="fresh"), run("random", part="sense"), run("random", part="closed"), run("random", part="next"), level="fault_enumeration")
R_TOOL = "An observation is one result compared with a byte-wise or scalar model. Non-trivial and distinct: differs in operation or (hashed) result. "
check("P21", R_TOOL, run("tools", part="int"), run("tools", part="lanes"))
check("P22", R_TOOL, run("tools", part="mem"), run("tools", part="array"))
check("P11", R_DIFF + "A forgery counts when it did not give the sender's secret. ", run("asym", part="kyber"), run("asym", part="mceliece", scale=1))
check("P12", R_DIFF + "A forgery counts when it was refused and its message withheld. ", run("asym", part="dilithium"), run("asym", part="ecdsa"), run("asym", part="keys"),
      run("asym", part="sphincs", scale=1), run("asym", part="xmss", scale=1), run("asym", part="xmss-slow", variant="fast", scale=1, thorough_only=True))
check("P13", R_DIFF, run("asym", part="ecdh"))
check("P14", "An observation is one signature's index, the key after it, or one refusal at the end of the key. Non-trivial and distinct: differs in parameter set and index. ", run("asym", part="xmss-state", scale=1))
check("P15", "An observation is one accessor, stream or refusal compared with what was put in. Non-trivial and distinct: differs in container, policy or (hashed) key. ",
      run("keys", part="symmetric", scale=1), run("keys", part="secure"), run("keys", part="asymmetric"), run("keys", part="generator"), level="fault_enumeration")
check("P16", "An observation is one history of requests and releases (or one helper call) judged. Non-trivial and distinct: differs in the (hashed) sequence of sizes and addresses. ",
      run("memory", part="pool"), run("memory", part="threads"), run("memory", "tsan", part="threads"), run("memory", part="allocator"), run("memory", part="erased"), run("memory", part="helpers"), level="fault_enumeration")
check("P18", R_DIFF, run("io", part="padding", scale=20))
check("P19", "An observation is one history, whose every call was judged. Non-trivial and distinct: differs in the (hashed) final content and position. ", run("io", part="memory", scale=20), run("io", part="secure", scale=20), run("io", part="file", scale=20), run("io", part="readwrite", scale=20))
check("P20", R_DIFF, run("io", part="cipher"), run("io", part="mac"), run("io", part="digest"))
check("P23", "An observation is one loop of tasks, or one state of a profile, judged. Non-trivial and distinct: differs in number and (hashed) behaviour of tasks, or in the profile's values. ",
      run("par", part="for", scale=10), run("par", "tsan", part="for", scale=5), run("par", part="profile", scale=20))
check("P24", "An observation is one piece of work done beside others (or by several threads) and compared with the same work done alone. Non-trivial and distinct: differs in primitive and (hashed) result. ",
      run("par", "tsan", part="instances", scale=5), run("par", part="instances", scale=5), run("modes", "tsan", part="modes", scale=2), run("digest", "tsan", part="tree", scale=2),
      run("stream", "tsan", part="aead", scale=2), run("stream", "tsan", part="plain", scale=1), run("io", "tsan", part="cipher", scale=1), run("io", "tsan", part="digest", scale=1))
check("P17", "An observation is one history compared with itself without the refused calls, or one refused construction. Non-trivial and distinct: differs in primitive, last refused call and (hashed) history. ",
      run("deny", part="refuse", scale=8), run("deny", part="ctor", scale=5))
check("P28", "An observation is one piece of work after which the heap was looked at, or one failed request for memory. Non-trivial and distinct: differs in primitive, (hashed) input and failing request. ",
      run("life", part="leak", scale=5), run("life", part="starve", scale=2), run("life", part="dry", scale=5), level="fault_enumeration")
check("P25", "An observation is one identifier, name, value or made object judged. Non-trivial and distinct: differs in identifier, altered name or (hashed) output. ",
      run("names", part="names", scale=20), run("names", part="factories", scale=10), run("names", part="exceptions", scale=5))
check("P27", "An observation is one run whose trace was compared, event by event, with that of a run which differs in a secret alone. Non-trivial and distinct: differs in the (hashed) trace and result, and the secrets made a difference to the result. ",
      run("ct", "ct", part="primitives", scale=4), run("ct", "ct", part="forgeries", scale=10), run("ct", "ct", part="helpers", scale=10), run("ct", "ct", part="keys", scale=2))
check("P26", "An observation is one address, text or resolution compared, one raising of an event, or one exchange over a connection. Non-trivial and distinct: differs in the (hashed) address, history or bytes exchanged. ",
      run("net", part="address", scale=3), run("net", part="event", scale=3), run("net", part="event-threads", scale=3, limit=60), run("net", "tsan", part="event-threads", scale=2, limit=60), run("net", part="socket", scale=4))
check("P29", R_DIFF,
      run("modes", "scalar", part="modes", scale=2), run("stream", "scalar", part="plain", scale=2), run("stream", "scalar", part="aead", scale=2), run("digest", "scalar", part="seq", scale=2), run("digest", "scalar", part="tree", scale=2),
      run("kdf", "scalar", part="stream", scale=2), run("mac", "scalar", part="mac", scale=2), run("drbg", "scalar", part="gen", scale=2),
      run("asym", "scalar", part="kyber", scale=1), run("asym", "scalar", part="dilithium", scale=1), run("asym", "scalar", part="ecdh", scale=1), run("tools", "scalar", part="lanes", scale=2), run("tools", "scalar", part="mem", scale=2),
      run("par", "omp", part="for", scale=5), run("modes", "omp", part="modes", scale=2), run("digest", "omp", part="tree", scale=2), run("stream", "omp", part="plain", scale=2),
      run("modes", "debug", part="modes", scale=2), run("digest", "debug", part="seq", scale=2), run("digest", "debug", part="tree", scale=2), run("stream", "debug", part="aead", scale=2), run("stream", "debug", part="plain", scale=2), run("mac", "debug", part="mac", scale=2), run("drbg", "debug", part="gen", scale=2), run("kdf", "debug", part="stream", scale=2),
      *(run(h, "avx", part=p, scale=2, thorough_only=True) for h, p in (("modes", "modes"), ("stream", "plain"), ("stream", "aead"), ("digest", "seq"), ("digest", "tree"), ("tools", "lanes"), ("tools", "mem"), ("asym", "kyber"), ("asym", "dilithium"))),
      *(run(h, v, part=p, scale=1, thorough_only=True) for v in ("scalar", "debug") for h, p in (("asym", "mceliece"), ("asym", "sphincs"), ("asym", "xmss"), ("asym", "ecdsa"), ("keys", "symmetric"), ("keys", "asymmetric"), ("keys", "secure"), ("tools", "int"), ("tools", "array"))))
check("P30", R_DIFF, run("digest", part="params"), run("digest", part="described"))
check("P31", "what an instance announces (state, direction, sizes, settings) against what the next call does, after every step of a random history",
      run("state", part="symmetric", scale=20), run("state", part="generators", scale=20), run("state", part="asymmetric", scale=1))
