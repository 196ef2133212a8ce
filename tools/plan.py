"""Which harnesses decide which property, with which bounds (p: harness parameters, t: seconds)."""
PLAN = {}
NA = {}
def h(props, fn, bounds, quick, thorough, covers=(), tq=60, tt=600):
    for p in props.split():
        PLAN.setdefault(p, []).append({"fn": fn, "bounds": bounds, "quick": {"p": quick, "t": tq}, "thorough": {"p": thorough, "t": tt}, "covers": list(covers)})
COMMON = [
    "rustc 1.82 and LLVM translate the code faithfully (release profile, opt-level 1, overflow checks on); Z3 is correct; the engine's memory model and builtins (allocator, memcpy, memcmp, strlen) are as in its source",
    "rand, stringprep and libgssapi are replaced by stand-ins that answer everything their contract allows; sha1/sha2 compress functions are exact on concrete blocks and injective uninterpreted functions on symbolic ones",
    "inputs are bounded as listed under harnesses; loops are unrolled completely within these bounds",
]
ASSUME = {}
h("C12 C24", "h_plain_client", "authzid, authid, password each absent or any of 0..={0} bytes (UTF-8 where required)", "4", "7", (1, 2))
h("C13 C01 C24", "h_plain_server", "any message of 0..={0} bytes, accepting or refusing application", "7", "9", (1, 2, 3))
ASSUME["C13"] = ["saslprep is exact on ASCII and an unconstrained function (refuse, keep, change) on other strings"]
h("C14 C02 C24", "h_login_client", "credentials of 0..={0} bytes or absent, challenges of 0..={1} bytes", "5,2", "8,3", (1, 2, 3))
h("C14 C01 C24", "h_login_server", "user name and password of 0..={0} bytes each, any verdict", "4", "5", (1, 2))
h("C15 C24", "h_token_client", "token absent or any of 0..={0} bytes", "6", "10", (1,))
h("C15 C01 C24", "h_token_server", "any message of 0..={0} bytes, any verdict", "5", "7", (1, 2))
h("C16 C24", "h_xoauth2_pair", "user of 0..={0} and token of 0..={1} bytes, or absent", "3,3", "5,5", (1, 2, 3))
h("C16 C01 C24", "h_xoauth2_server", "any message of 0..={0} bytes, any answer and verdict of the application, error text of 0..=2 bytes", "22", "24", (1, 2, 3, 4))
h("C16 C02 C24", "h_xoauth2_client_error", "any error of 1..={0} bytes, taken or not", "5", "7", (1, 2, 3))
h("C17 C24", "h_oauthbearer_pair", "authzid 0..={0}, token 0..={1} bytes or absent, up to {2} pairs of 0..={3} bytes each", "2,2,1,2", "3,3,2,2", (1, 2, 3))
h("C17 C01", "h_oauthbearer_server", "any message of 0..={0} bytes after 'n,'", "9,1", "11,1", (1,), tq=40)
h("C17 C01", "h_oauthbearer_server", "'n,' + 0..={0} bytes + ^Aauth= + 0..={2} bytes + ^A^A", "4,2,3", "6,2,4", (1, 2, 3, 4))
h("C17", "h_oauthbearer_error", "error status of 0..={0} bytes, scope and configuration absent or 0..={1} bytes", "1,1", "2,1", (1,))
h("C17 C02", "h_oauthbearer_client_raw", "any error message of 0..={0} bytes without digits", "3,0", "4,0", (1, 3))
h("C17 C02", "h_oauthbearer_client_raw", "{{\"status\": + any 0..={0} bytes without digits + }}", "3,1", "4,1", (2, 3))
A = ["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"]
def sc(props, fn, bounds, quick, thorough, covers=(), algs=(0, 1, 2), talgs=(0, 1, 2), **k):
    """quick/thorough: parameters after the algorithm; algs: algorithms in the quick tier (the others only in the thorough one)"""
    for a in talgs:
        n = len(quick.split(",")) + 1
        h(props, fn, A[a] + ": " + bounds, "%d,%s" % (a, quick) if a in algs else None, "%d,%s" % (a, thorough), covers, **k)
SP = "C03 C06 "
sc("C05 C08 C24", "h_scram_client_first", "user name of 0..={1} and authorization identity of 0..={2} bytes or absent", "2,2,0", "4,3,0", (1, 2))
sc("C05 C08", "h_scram_client_first", "-PLUS, user name of 0..={1} and authorization identity of 0..={2} bytes or absent", "1,1,1", "2,2,1", (1, 2))
sc("C05", "h_scram_fresh", "every outcome of the random source, two exchanges of a client", "0", "0", (1,))
sc("C05", "h_scram_fresh", "every outcome of the random source, two exchanges of a server", "1", "1", (1,))
sc("C04 C06 C24", "h_scram_client", "password 0..={1}, name 1..={2}, nonce extension 1..={3} bytes, 1..={4} iterations; password, salted password or keys; with and without -PLUS", "2,2,1,2,3", "3,2,2,3,3", (1, 2, 3))
sc("C02 C05", "h_scram_client_challenge", "valid first server message with up to {1} bytes replaced anywhere", "2,0", "3,0", (1, 2))
sc("C02 C05", "h_scram_client_challenge", "valid first server message with up to {1} bytes truncated, inserted or deleted anywhere", "2,1", "2,1", (1, 2))
sc("C02 C05", "h_scram_client_challenge", "nonce of another length or content (up to {1} bytes)", "2,2", "3,2", (1, 2))
sc("C02 C06", "h_scram_client_params", "every iteration count text of 0..={1} and salt text of 0..={2} bytes", "3,4", "4,4", (1, 2))
for m, b, q, t, c in [(0, "the right signature, everything free", 0, 0, (1, 2)), (1, "up to {2} bytes of the final message replaced", 2, 3, (1, 2)), (2, "truncated, extended or other messages by up to {2} bytes", 4, 6, (2,)), (3, "no message", 0, 0, (1,)), (4, "any message of 0..={2} bytes", 5, 7, (2,)), (5, "e= or other attribute with any value of up to {2} bytes", 4, 6, (2,)), (6, "every error of RFC 5802, up to {2} bytes appended, also with the right signature behind it", 1, 2, (2,)), (7, "several attributes, the right signature not in front", 2, 3, (2,))]:
    sc("C02 C04", "h_scram_client_verify", "server's final message: " + b, "%d,%d" % (m, q), "%d,%d" % (m, t), c)
for m, b, q, t, c in [(0, "any message of 0..={1} bytes", 8, 9, (1,)), (1, "any name of 0..={1} bytes", 4, 5, (1, 2, 3)), (2, "any authorization identity of 0..={1} bytes", 4, 5, (1, 2, 3)), (3, "any nonce of 0..={1} bytes", 3, 4, (1, 2, 3)), (4, "any gs2 flag of 0..={1} bytes", 4, 5, (1, 2, 3)), (5, "a valid message with up to {1} bytes replaced, removed, inserted or the end missing", 2, 3, (1, 2, 3)), (6, "any authorization attribute of 0..={1} bytes", 3, 4, (1, 2, 3)), (7, "any name attribute of 0..={1} bytes", 3, 4, (1, 2, 3))]:
    sc("C01 C05 C07 C08 C24", "h_scram_server_first", "client's first message: " + b, "%d,%d" % (q, m), "%d,%d" % (t, m), c)
for m, b, q, t, c in [(0, "any proof of the right length", 0, 0, (1, 2)), (1, "any text in place of the proof", 0, 0, (1, 2)), (2, "the right message with up to {2} bytes replaced, removed, inserted or the end missing", 1, 2, (1, 2)), (3, "any message of 0..={2} bytes", 6, 8, (2,)), (4, "any stored keys and any proof", 0, 0, (1, 2)), (5, "any channel binding attribute of 0..={2} bytes", 4, 5, (2,)), (6, "the nonce with up to {2} bytes changed", 2, 3, (1, 2)), (7, "unknown user, the right or any proof of 0..={2} bytes", 3, 4, (2,)), (8, "the encoded gs2 header with up to {2} bytes changed", 2, 2, (1, 2)), (9, "the gs2 header with up to {2} bytes changed", 2, 2, (1, 2)), (10, "the stored key with up to {2} bytes changed, the right proof for it", 1, 2, (1, 2))]:
    sc("C01 C03" + (" C07" if m in (5, 8, 9) else "") + (" C05" if m in (2, 6) else "") + (" C06" if m == 0 else ""), "h_scram_server_final", "client's final message: " + b, "%d,%d" % (m, q), "%d,%d" % (m, t), c)
for m, b in [(0, "first"), (1, "final")]:
    sc("C03 C08 C01", "h_scram_server_ext", "client's " + b + " message with any extensions of 0..={2} bytes, covered by its proof or inserted on the way", "%d,4" % m, "%d,6" % m, (1, 2, 3))
for m, b, q, t in [(0, "only the plain mechanism", 1, 2), (1, "the plain mechanism, -PLUS also offered", 1, 2), (2, "-PLUS", 2, 3)]:
    sc("C07 C03 C06" if m == 2 else "C07", "h_scram_server_cb", "server with " + b + ": every flag, source and binding data of 0..={2} bytes on each side", "%d,%d" % (m, q), "%d,%d" % (m, t), (1, 2, 3))
sc("C07 C26", "h_scram_client_cb", "-PLUS client: every source, override and binding data of 0..={1} bytes", "2", "3", (1, 2))
sc("C06 C07 C08 C24", "h_scram_pair", "client and server: name 1..={1}, authorization identity 1..={2} or absent, password {3}, binding data {4} bytes", "1,1,1,1", "2,2,2,2", (1, 2))
ASSUME["C06"] = ["keys are compared with an independent implementation of RFC 5802 that calls the same SHA compression functions; PBKDF2 with up to 3 iterations; different passwords are only compared concretely (hash values are uninterpreted)"]
K = ["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "GSSAPI", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS"]
AT = [8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, 2048, 4096, 8192, 65536]
def at(n): return "one value at a time of one of the lengths %s..%s (%d lengths around powers of two, block and buffer sizes)" % (AT[0], AT[n - 1], n)
def c_(k, *a): return ",".join(str(x) for x in (k,) + a)
for k, s, l, ts, tl, cov in [(0, 2, 3, 2, 4, (1, 2, 3)), (1, 4, 2, 5, 2, (1, 2, 3)), (2, 2, 3, 2, 5, (1, 2)), (3, 2, 3, 2, 5, (1, 2)), (4, 4, 3, 4, 4, (1, 2, 3)), (5, 4, 3, 4, 3, (1, 2, 3)), (6, 4, 2, 5, 2, (2, 3))] + [(k, 3, 3, 4, 4, (1, 2, 3)) for k in range(7, 13)]:
    q = True
    h("C18 C01 C24" + (" C31" if k in (1, 4, 5) else ""), "h_server_history", K[k] + ": every history of {1} messages: none, the well-behaved client's, with one byte changed, or any of 0..={2} bytes" + (" (at most one not the well-behaved client's)" if k > 6 else ""), c_(k, s, l) if q else None, c_(k, ts, tl), cov)
for k, s, l, ts, tl, cov in [(0, 2, 3, 2, 4, (1,)), (1, 3, 3, 4, 3, (1,)), (4, 3, 3, 3, 4, (1, 2)), (5, 3, 3, 3, 3, (1, 2)), (6, 3, 3, 4, 3, (1, 2, 3))] + [(k, 4, 3, 4, 4, (1, 2, 3)) for k in range(7, 13)]:
    q = True
    h("C02 C24", "h_client_history", K[k] + ": every history of {1} steps: none, the well-behaved server's message, with one byte changed, or any of 0..={2} bytes" + (" (at most one not the well-behaved server's)" if k > 6 else ""), c_(k, s, l) if q else None, c_(k, ts, tl), cov)
for k, side, s, l, ts, tl, cov in [(0, 0, 2, 2, 2, 4, (1, 2)), (1, 0, 3, 2, 4, 3, (1, 2)), (4, 0, 2, 2, 3, 3, (1, 2)), (5, 0, 2, 2, 3, 3, (1, 2)), (4, 1, 3, 2, 3, 3, (2,)), (5, 1, 3, 2, 3, 2, (2,))] + [(k, d, 3, 2, 3, 3, (1, 2)) for k in range(7, 13) for d in (0, 1)]:
    q = True
    h("C25", "h_retry", K[k] + (" client" if side else " server") + ": every state within {2} steps, then the well-behaved peer's message, with one byte changed, or any of 0..={3} bytes", c_(k, side, s, l, 1) if q else None, c_(k, side, ts, tl, 1), cov)
for a, b, side, s, l, f, q in [(1, 1, 0, 3, 1, 1, 1), (4, 4, 0, 2, 1, 1, 1), (5, 5, 0, 2, 1, 1, 0), (5, 5, 0, 2, 1, 0, 1), (7, 7, 0, 2, 2, 0, 1), (7, 7, 1, 3, 1, 0, 1), (8, 7, 1, 3, 1, 0, 1), (8, 8, 0, 2, 2, 0, 1), (7, 1, 0, 2, 1, 0, 1), (7, 10, 0, 2, 1, 0, 0), (1, 1, 1, 2, 1, 1, 0), (1, 1, 1, 2, 1, 0, 1), (5, 4, 1, 2, 1, 0, 0), (0, 0, 0, 2, 2, 1, 1), (2, 3, 0, 2, 2, 1, 1)]:
    p = c_(a, b, side, s, l, 1, f)
    h("C27", "h_two", K[a] + " and " + K[b] + (" clients" if side else " servers") + " of one configuration: every interleaving of {3} steps each; messages as the well-behaved peer's, with one byte changed, or any of 0..={4} bytes in " + ("both" if f else "the first"), p if q else None, p, (1,))
for a, b, side, n, f in [(7, 7, 0, 2, 1), (7, 7, 1, 3, 1), (7, 7, 1, 3, 0), (9, 9, 0, 2, 0), (9, 9, 1, 3, 0), (10, 10, 0, 2, 0), (10, 10, 1, 3, 0), (8, 7, 0, 2, 1), (7, 8, 1, 3, 0), (11, 9, 0, 2, 0), (12, 10, 1, 3, 0), (9, 7, 1, 3, 0), (1, 1, 0, 3, 0), (5, 5, 0, 1, 0), (4, 4, 0, 1, 0), (0, 0, 0, 1, 0), (0, 0, 1, 1, 0)]:
    h("C27 C31", "h_two", K[a] + " and " + K[b] + (" clients" if side else " servers") + " of one configuration with the well-behaved peers of different people (user, password, salt; application with " + ("the salted password" if f else "the password") + "): every interleaving of the {3} steps", c_(a, b, side, n, 1, f, 2), c_(a, b, side, n, 1, f, 2), (1, 2, 31))
for k in range(13):
    if k == 6: continue
    for side in (0, 1):
        cov = [1, 2] + ([3] if side == 0 else []) + [31]
        h("C30 C31", "h_no_layer", K[k] + (" client" if side else " server") + " with a well-behaved peer: data of 0..={3} bytes to protect and unprotect at every point of {2} steps and after the end", c_(k, side, 3 if side and k > 6 or k == 1 else 2, 2), c_(k, side, 4 if side and k > 6 or k == 1 else 2, 6), cov)
    h("C24", "h_connected", K[k] + ": client and server connected to each other, each credential of 0..={1} ASCII characters", c_(k, 4), c_(k, 6), (1, 2) if k in (4, 5) else (1,))
h("C30", "h_layer", "GSSAPI server: {1} operations with data of 0..={2} bytes, every answer of the library, " + "every writer that takes all but up to {3} calls completely", "0,2,2,1", "0,3,2,1", (1, 2, 3, 4), tq=90)
h("C30", "h_layer", "GSSAPI client: {1} operations with data of 0..={2} bytes, every answer of the library, " + "every writer that takes all but up to {3} calls completely", "1,2,2,1", "1,3,2,1", (1, 2, 3, 4), tq=90)
h("C29 C01 C18 C24 C25 C31", "h_gss_server", "every history of {0} steps with every answer of the GSSAPI library, unwrapped messages of 0..={1} bytes, every accepted set of layers", "3,5", "4,5", (2, 3))
h("C29 C25", "h_gss_server", "every history of {0} steps with every answer of the GSSAPI library, unwrapped messages of 0..={1} bytes, every accepted set of layers", "4,5", "5,5", (2, 3), tq=100, tt=900)
h("C29 C25", "h_gss_client", "every history of {0} steps with every answer of the GSSAPI library, unwrapped messages of 0..={1} bytes, every accepted set of layers", "4,5", "5,5", (1, 2, 3, 4), tq=100, tt=900)
h("C29 C02 C24 C25 C31", "h_gss_client", "every history of {0} steps with every answer of the GSSAPI library, unwrapped messages of 0..={1} bytes, every accepted set of layers", "3,5", "4,4", (1, 2, 3, 4))
ASSUME["C30"] = ASSUME["C29"] = ["libgssapi is replaced by a stand-in whose every answer (context flags, tokens, completion, wrap/unwrap results and failures) is unconstrained; only the agreement logic of rsasl is decided"]
ASSUME["C27"] = ["sessions are stepped alternately, not in parallel: interference inside a step (which would need shared mutable state) is outside; every step of a session has its own randomness, the same when the session is alone and when it runs beside another"]
ASSUME["C18"] = ["histories are bounded; after an error or the end of the exchange no further step is made"]
POOLT = "mechanisms with client, server or both sides, -PLUS-like ones and names that extend each other"
h("C09 C10", "h_default_config", "configurations that name no mechanisms (three ways to make them): 0..={0} offered names, every requested one, channel binding on and off", "2", "3", (1, 2, 3, 4))
h("C09", "h_select", "0..={1} of 6 " + POOLT + " in any order, 0..={2} offered names of 1..={3} characters, every ranking by the application", "0,2,3,4", "0,3,3,4", (1, 2))
h("C09", "h_select", "the same with the default preference and every priority", "1,3,2,3", "1,3,3,4", (1, 2))
h("C09 C07", "h_select_builtin", "0..={1} of the first {0} built-in mechanisms, 0..={2} offered: their names with up to one character replaced, removed or added; channel binding on and off", "4,2,2", "6,2,2", (1, 2, 3, 6))
h("C09 C07", "h_select_builtin", "0..={1} of the first {0} built-in mechanisms, 0..={2} offered: their names with up to one character replaced, removed or added; channel binding on and off", "9,2,1", "9,3,1", (1, 2, 3, 4, 5, 6))
h("C09 C07", "h_select_builtin", "0..={1} of the first {0} built-in mechanisms, 0..={2} offered: their names; channel binding on and off", "9,2,2,1", "9,3,3,1", (1, 2, 3, 4, 5, 6))
h("C09 C10", "h_many", "one of the 13 built-in mechanisms among 0..={0} others in the configuration and in the offer, first or last", "40", "80", (1, 2))
h("C07", "h_select_builtin", "0..={1} of 4 SCRAM mechanisms, 0..={2} offered", None, "4,2,3", (1, 2, 3, 6))
h("C10", "h_server_start", "0..={0} of 7 " + POOLT + " in any order, every name of 1..={1} characters", "4,5", "5,6", (1, 2))
h("C10", "h_server_builtin", "each built-in mechanism alone or all, every built-in name with up to one character replaced, removed or added", "0", "0", (1, 2))
h("C11", "h_mechname", "every byte string of 0..={0} bytes, and every other one of 0..={0} bytes to compare it with", "8", "12", (1, 2, 3))
CRED = "user name and password of 0..={0}, authorization identity of 0..={1} bytes or absent, offers of 0..={2} built-in names"
h("C28", "h_credentials", CRED + " (PLAIN and LOGIN)", "4,3,2,1", "6,5,2,1", (1, 2, 3))
h("C28", "h_credentials", CRED, "2,0,1", "3,0,1", (1, 2, 3, 4))
h("C28", "h_credentials", CRED, "1,1,1", "2,1,1", (1, 2, 3, 4))
h("C28", "h_credentials", CRED, "0,0,3", "0,0,4", (1, 3))
h("C18", "h_validation", "{0} validating steps of a custom mechanism, every sequence of {1} operations of the callback", "1,3", "1,4", (1, 2))
h("C18", "h_validation", "{0} validating steps of a custom mechanism, every sequence of {1} operations of the callback", "2,2", "2,3", (1, 2))
for ops, q, t, cov in [("every sequence of provided values", "1,2,0", "1,3,0", (3, 4, 5)), ("every sequence of requested actions", "1,2,1", "1,3,1", (1, 2)), ("every operation", "1,2,2", "1,3,2,2", (1, 2, 3, 4, 5)), ("every operation on two properties", "2,1,2,2", "2,1,2,4", (1, 2, 3, 4, 5))]:
    h("C19 C20", "h_requests", ops + ": {0} requests of a custom mechanism, {1} operations of the callback each, every result", q, t, cov)
h("C19", "h_requests", "every sequence of provided values for two properties: {0} requests, {1} operations each", "1,3,0,2", "1,4,0,2", (3, 4, 5))
h("C20", "h_requests", "every sequence of requested actions for three properties: {0} requests, {1} operations each", "1,3,1,3", "1,4,1,2", (1, 2))
h("C21", "h_context", "every composition of up to {0} providers over several properties, every sequence of {1} queries", "3,2", "4,2", (1,))
h("C21", "h_context", "every composition of up to {0} providers over several properties, every sequence of {1} queries", "2,3", "3,3", (1,))
h("C26", "h_cbdata", "binding names of 0..={0} and data of 0..={1} bytes from the protocol, the callback, both or neither", "2,2", "3,3", (1, 2, 3, 4))
FW = "every writer (vectored or not) that takes all but up to {3} calls completely, these being short by any amount, interrupted, refusing or failing"
for k, side, s, d, ts, td, cov in [(0, 1, 1, 2, 1, 3, (1, 2)), (1, 0, 3, 1, 3, 2, (1, 2, 3)), (1, 1, 2, 2, 3, 2, (1, 2, 3)), (2, 1, 1, 2, 1, 3, (1, 2)), (3, 1, 1, 2, 1, 3, (1, 2)), (4, 1, 1, 2, 3, 1, (1, 3)), (4, 0, 2, 2, 2, 3, (1, 2, 3)), (5, 1, 1, 2, 1, 2, (1, 3)), (5, 0, 2, 1, 2, 2, (1, 2, 3)), (7, 0, 2, 1, 2, 2, (1, 2, 3)), (7, 1, 3, 1, 3, 2, (1, 2, 3)), (8, 0, 2, 1, 2, 2, (1, 2, 3)), (8, 1, 3, 1, 3, 2, (1, 2, 3))]:
    sd = " client" if side else " server"
    h("C22", "h_writer", K[k] + sd + ": {2} steps with messages of the well-behaved peer, " + FW, c_(k, side, s, d), c_(k, side, ts, td), cov)
    q = not (k == 8 or k in (2, 3)) 
    h("C23", "h_step64", K[k] + sd + ": {2} steps with messages of the well-behaved peer, " + FW, c_(k, side, s, 1) if q else None, c_(k, side, ts, td), cov)
for k, side, l, s, tl, cov in [(0, 0, 6, 0, 8, (1, 2)), (1, 0, 6, 1, 8, (1, 2)), (2, 0, 6, 0, 8, (1, 2)), (4, 1, 6, 1, 8, (1, 2)), (7, 1, 8, 1, 9, (1, 2)), (7, 0, 8, 1, 9, (1, 2))]:
    h("C23", "h_step64_any", K[k] + (" client" if side else " server") + ": every text of 0..={2} bytes as message after {3} steps", c_(k, side, l, s), c_(k, side, tl, s), cov)
GW = "every history of {1} steps with every answer of the library, "
h("C22", "h_writer_gss", "GSSAPI server: " + GW + FW.replace("{3}", "{2}"), "0,4,1,0", "0,4,2,0", (1, 2, 3, 4))
h("C22", "h_writer_gss", "GSSAPI client: " + GW + FW.replace("{3}", "{2}"), "1,3,1,0", "1,3,2,0", (1, 2, 3, 4))
h("C22 C23", "h_writer_gss", "GSSAPI server, base64: " + GW + FW.replace("{3}", "{2}"), "0,3,1,1", "0,3,2,1", (1, 2, 3))
h("C22 C23", "h_writer_gss", "GSSAPI client, base64: " + GW + FW.replace("{3}", "{2}"), "1,3,1,1", "1,3,2,1", (1, 2, 3))
ASSUME["C22"] = ["a writer takes everything offered except for the stated number of deviating calls; it never claims to have taken more than it was offered"]
ASSUME["C19"] = ASSUME["C20"] = ASSUME["C21"] = ["properties are four types of the harness (two sized ones of one value type, two unsized ones); the code under test is generic in them and dispatches by type"]

for k, p, q, t in [(0, "C12 C13", 25, 33), (1, "C14", 30, 33), (2, "C15", 33, 33), (3, "C15", 33, 33), (4, "C16", 33, 33), (5, "C17", 33, 33)]:
    h(p, "h_long", K[k] + " client and server: " + at(q) + ", one byte free", c_(k, q), c_(k, t), (1, 2, 3) if k == 0 else (1, 3) if k in (4, 5) else (1,))
h("C16", "h_long_error", "XOAUTH2 client and server: error text, " + at(33) + ", one byte free", "4,33", "4,33", (1,))
h("C17", "h_long_error", "OAUTHBEARER client and server: error fields, " + at(12) + ", one byte free", "5,12", "5,20", (1,))
LS = ["user name", "authorization identity", "password", "salt", "server's nonce", "binding data", "client's nonce", "1, 7, 100, 255, 256, 257 and 1000 iterations"]
LP = ["C03 C06 C08", "C03 C06 C08", "C03 C04 C06", "C03 C04 C06", "C03 C04 C05 C06", "C03 C06 C07", "C03 C05 C06", "C03 C04 C06"]
for which in range(8):
    free = which not in (3, 5, 7)
    n = 7 if which == 7 else 7 if which == 1 else 20 if free else 33
    sc(LP[which], "h_long_scram", "client, then server, with and without -PLUS: " + LS[which] + ("" if which == 7 else ", " + at(n)) + (", one byte free" if free else ""), "%d,%d,%d" % (n, which, free), "%d,%d,%d" % (7 if which == 7 else 18 if which == 1 else 28 if free else 33, which, free), (1, 2) if which in (4, 5, 6) else (1,), algs=(0, 1, 2) if not free else (1,))
    if free: sc(LP[which], "h_long_scram", "client, then server, with and without -PLUS: " + LS[which] + ", " + at(33), "33,%d,0" % which, "33,%d,0" % which, (1, 2) if which in (4, 6) else (1,))
for k in range(6):
    for text in (0, 1):
        h("C23" if text else "C22", "h_long_writer", K[k] + ("" if not text else ", base64 both ways") + ": all values of one length, " + at(33) + ", a writer that deviates in up to {2} calls (short by 1, by half, to 255, 1024, 4096 bytes; interrupted; failing)", c_(k, 33, 1, text, 0), c_(k, 33, 2, text, 1), (1, 2))
for k in range(13):
    h("C18", "h_default_app", K[k] + " server with an application that implements nothing: the well-behaved client's messages or any of 0..={2} bytes", c_(k, 0, 3), c_(k, 0, 5), (1,))
    h("C09" if k in (8, 11, 12) else "C19 C09", "h_default_app", K[k] + " client with an application that implements nothing", c_(k, 1, 0), c_(k, 1, 0), (1,))
sc("C03", "h_scram_bad_keys", "stored keys of 0, 1, n-1, n, n+1, 2n bytes (n: the hash's length), the right proof or one of 0..=2 bytes", "0", "0", (1, 2))
PI = "up to {%d} pieces, each ',' '=' '=2C' '=3D' 'a= ,' a 2-byte or 4-byte character or any ASCII character"
for z in (0, 1):
    sc("C08", "h_scram_pieces", ("authorization identity" if z else "user name") + " from client to server: " + PI % 1, "4,%d" % z, "5,%d" % z, (1,), algs=(z,), talgs=(z,))
h("C17", "h_oauthbearer_pieces", "authorization identity from client to server: " + PI % 0, "4,0,0", "5,0,0", (1, 2))
h("C17", "h_oauthbearer_pieces", "up to {2} pairs, one with a key or value of " + PI % 1, "0,2,3", "0,3,3", (1, 2))
h("C11", "h_mechname_long", "names of {1} lengths from 8 to 1000 with {0} free byte(s) at any place", "1,27", "2,27", (1, 2))
sc("C06", "h_scram_iterations", "24 iteration counts from 1 to 2^32-1 and 6 larger ones, at client and server", "0", "0", (1, 2))
