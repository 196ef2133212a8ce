#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (regenerates it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
M = "src/mechanisms/"
SCRAM = [M+"scram/client.rs", M+"scram/server.rs", M+"scram/parser.rs", M+"scram/tools.rs"]

p("C01", "Server side survives any client message",
  "Whatever bytes a client sends, and at whatever legal point of an exchange, a server-side step of every built-in mechanism returns a state or an error: it never panics, never hangs and never reads or writes out of bounds. A message that is shorter than expected, empty, truncated in the middle of an attribute, or not UTF-8 where it has to be text is answered with an error.",
  ["inputs", "histories"], "every client message up to the stated length at every legal protocol state of every mechanism's server side",
  "The tests send a handful of well-formed messages and two malformed ones; the crashing messages are rare short or truncated ones.",
  [M+"scram/parser.rs", M+"scram/server.rs", M+"plain/server.rs", M+"login/server.rs", M+"oauthbearer/parser.rs", M+"oauthbearer/server.rs", M+"xoauth2/server.rs", M+"external/server.rs", M+"anonymous/server.rs"],
  [("message parsers", M+"scram/parser.rs"), ("server step functions", M+"*/server.rs")], ["Session::step on a server session"])
p("C02", "Client side survives any server message",
  "Whatever bytes a server sends, and at whatever legal point of an exchange, a client-side step of every built-in mechanism returns a state or an error: it never panics, never hangs and never reads or writes out of bounds.",
  ["inputs", "histories"], "every server message up to the stated length at every legal protocol state of every mechanism's client side",
  "The SCRAM client has no exchange test at all, the others see one or two fixed messages.",
  [M+"scram/parser.rs", M+"scram/client.rs", M+"login/client.rs", M+"oauthbearer/client.rs", M+"xoauth2/client.rs", M+"plain/client.rs"],
  [("message parsers", M+"scram/parser.rs"), ("client step functions", M+"*/client.rs")], ["Session::step on a client session"])
p("C03", "SCRAM server accepts exactly the correct proof",
  "A SCRAM server session finishes successfully if and only if the client's final message carries exactly the proof that the stored credential, the literal messages exchanged and the nonce determine. For any other proof, of any length or content, the validation callback is not called, no server signature is sent and the server answers with an error: an error attribute sent to the client, or a step that fails.",
  ["inputs", "histories"], "every client-final message up to the stated length and every stored credential",
  "No test runs a SCRAM server exchange; acceptance of a wrong or truncated proof is a property of all proofs.",
  SCRAM, [("proof verification", M+"scram/server.rs"), ("validate after proof", M+"scram/server.rs")], ["Session::step result, validate callback, bytes written"])
p("C04", "SCRAM client finishes only after authenticating the server",
  "A SCRAM client session reports completion only if the server's final message starts with exactly the server signature attribute that the password and the transcript determine (extension attributes may follow it). A missing final message, an error attribute, a wrong, shortened or extended signature, or any other content makes the step return an error.",
  ["inputs", "histories"], "every server-final message (or its absence) up to the stated length",
  "No test runs a SCRAM client exchange past its first message.",
  SCRAM, [("server signature check", M+"scram/client.rs")], ["Session::step result"])
p("C05", "SCRAM nonces bind the exchange",
  "A SCRAM client continues only if the nonce in the server's first message starts with the nonce it sent and is longer than it; a SCRAM server accepts a final message only if its nonce equals the concatenation of the client's nonce and its own. Each side draws its own nonce freshly from the random source for every exchange and sends exactly what it drew, using only printable characters without comma.",
  ["inputs", "histories"], "every nonce received, every outcome of the random source",
  "No test exercises nonces; a replayed or truncated nonce is one specific input among all.",
  SCRAM, [("nonce prefix check", M+"scram/client.rs"), ("nonce equality check", M+"scram/server.rs"), ("nonce generation", M+"scram/tools.rs")], ["messages written, Session::step result"])
p("C06", "SCRAM keys, proof and signature follow RFC 5802",
  "For every password, salt, iteration count, identity and nonce, the SCRAM client's proof and the server's signature are exactly the RFC 5802 functions of the password and of the literal messages exchanged. Consequently a client and a server that share the password, whether the server holds it as plaintext, as salted hash or as stored keys, always complete the exchange, and messages that are valid per RFC 5802 (a server's: without optional extensions) are accepted.",
  ["inputs", "configurations"], "all credentials, salts, iteration counts, nonces within the bounds; with and without authorization identity and channel binding",
  "Needs the exact byte string that gets signed for all inputs; tests cover one hmac reset assumption.",
  SCRAM, [("auth message assembly", M+"scram/client.rs, server.rs"), ("key derivation", M+"scram/tools.rs")], ["messages written by both sides, Session::step result"])
p("C07", "SCRAM channel binding can not be stripped or forged",
  "A SCRAM -PLUS client always announces and sends the channel binding data it was given, and fails if there is none; a client of the plain variant claims that the server lacks channel binding if and only if channel binding is enabled and the server did not offer the -PLUS variant. A SCRAM server accepts a final message only if it repeats the exact gs2 header of the first message followed by the server's own channel binding data; a -PLUS server refuses clients that do not use channel binding, a server without channel binding refuses clients that demand it, and a client that claims the server lacked channel binding support is refused by a server that offers it.",
  ["inputs", "configurations", "histories"], "every gs2 header and channel-binding attribute up to the stated length, every binding data value",
  "Downgrade attacks are specific deviations that no test sends.",
  SCRAM+[M+"scram/mechinfo.rs", "src/session.rs"], [("gs2 flag policy", M+"scram/server.rs"), ("cbind-input comparison", M+"scram/server.rs"), ("cbind-input construction", M+"scram/client.rs")], ["messages written, Session::step result"])
p("C08", "SCRAM conveys identities faithfully",
  "The user name and authorization identity given to a SCRAM client are what the server's callbacks see, for every value including ones that contain a comma or an equals sign, and an authorization identity is reported if and only if the client gave one. An identity that can not be represented is refused with an error, and a malformed escape sequence sent by a client is refused by the server.",
  ["inputs"], "every identity and every escaped identity up to the stated length",
  "Escaping edge cases are inputs the tests don't contain.",
  [M+"scram/parser.rs", M+"scram/client.rs", M+"scram/server.rs"], [("saslname escape/unescape", M+"scram/parser.rs")], ["client-first message; properties visible to server callbacks"])
p("C09", "Client picks only a mutually supported mechanism",
  "A client session is started only with a mechanism whose exact name the server offered, which is enabled in the configuration and supports the client role; -PLUS variants are chosen only if channel binding is enabled. If there is no such mechanism starting fails with an error, if there is one starting succeeds, and of several candidates the one the application's preference (by default the mechanism's priority) ranks highest is used, independent of the order of the offer.",
  ["inputs", "configurations"], "every offered list within the bounds, every registry subset, every preference order, channel binding on and off",
  "Tests cover a few offers of -PLUS variants; the claim is over all subsets, orders and names.",
  ["src/registry.rs", "src/config.rs", "src/sasl.rs", M+"scram/mechinfo.rs", "src/builder.rs"], [("select / Selector", "src/registry.rs"), ("SCRAM selectors", M+"scram/mechinfo.rs")], ["SASLClient::start_suggested"])
p("C10", "Server starts only the exact registered mechanism",
  "A server session starts if and only if the requested name is exactly the name of an enabled mechanism that supports the server role, and the session then runs that very mechanism. The list of available mechanisms contains exactly those.",
  ["inputs", "configurations"], "every valid mechanism name and every registry subset",
  "No test starts a server session by name.",
  ["src/sasl.rs", "src/registry.rs", "src/config.rs"], [("server_start_suggested", "src/sasl.rs")], ["SASLServer::start_suggested, get_available"])
p("C11", "Mechanism names are validated exactly",
  "Parsing a mechanism name succeeds if and only if it is non-empty and consists only of the characters A-Z, 0-9, hyphen and underscore; the parsed name compares equal to and displays as exactly the input. A rejected name reports why, and for an invalid character its first position and value.",
  ["inputs"], "every byte string up to the stated length",
  "The unit test samples a dozen names.",
  ["src/mechname.rs"], [("Mechname::parse", "src/mechname.rs")], ["Mechname::parse"])
p("C12", "PLAIN client sends exactly the given credentials",
  "The PLAIN client writes exactly authzid NUL authid NUL password for the values its callback provides, with an empty authzid if none is provided. If any value contains a NUL byte, or authid or password are empty or missing, it returns an error instead of completing.",
  ["inputs"], "all credential values up to the stated length",
  "Tests sample about fifteen combinations.",
  [M+"plain/client.rs", M+"plain/mechinfo.rs"], [("client step", M+"plain/client.rs")], ["bytes written, Session::step result"])
p("C13", "PLAIN server parses exactly authzid NUL authid NUL password",
  "The PLAIN server calls the validation callback if and only if the message is exactly three NUL separated fields with a non-empty authid and password, a UTF-8 authzid and a valid authid; the callback then sees exactly those three fields (authid and a UTF-8 password after SASLprep, the authzid verbatim). Everything else is answered with an error and never validated.",
  ["inputs"], "every message up to the stated length",
  "There is no test of the PLAIN server.",
  [M+"plain/server.rs", M+"plain/mechinfo.rs"], [("server step", M+"plain/server.rs")], ["validate callback's context, Session::step result"])
p("C14", "LOGIN exchanges username and password in order and unaltered",
  "The LOGIN client answers the first challenge with exactly the authid and the second with exactly the password of its callback. The LOGIN server sends its two prompts and then validates exactly the authid and password it received in that order, refusing an authid that is not UTF-8.",
  ["inputs", "histories"], "all challenges, credentials and responses up to the stated length",
  "One test covers one combination on the client, none the server.",
  [M+"login/client.rs", M+"login/server.rs"], [("step state machines", M+"login/*.rs")], ["bytes written, validate callback's context"])
p("C15", "ANONYMOUS and EXTERNAL carry their token unaltered",
  "The ANONYMOUS and EXTERNAL clients send exactly the trace token or authorization identity their callback provides, and nothing if there is none. The servers validate if and only if the message is UTF-8 and expose exactly the received string, refusing anything else without validating.",
  ["inputs"], "every token and every message up to the stated length",
  "Tests sample a few strings.",
  [M+"anonymous/client.rs", M+"anonymous/server.rs", M+"external/client.rs", M+"external/server.rs"], [("step", M+"anonymous, external")], ["bytes written, validate callback's context"])
p("C16", "XOAUTH2 conveys user and token and reports server errors",
  "For every user and token the XOAUTH2 client sends exactly user=, the user, ^A, auth=Bearer, the token, ^A^A, refusing values that contain ^A, and the server exposes exactly that user and token. The server finishes at once only if the application accepted the token; otherwise it sends exactly the application's error, waits for the client's reply and ends without a further message. The client hands that error to its application, failing if it does not take it, and then ends the exchange.",
  ["inputs", "histories"], "all user names, tokens, error messages and raw messages up to the stated length",
  "Tests cover one fixed success and one fixed error.",
  [M+"xoauth2/client.rs", M+"xoauth2/server.rs", M+"xoauth2/properties.rs"], [("client step", M+"xoauth2/client.rs"), ("server step", M+"xoauth2/server.rs")], ["bytes written, callbacks, Session::step result"])
p("C17", "OAUTHBEARER conveys token and parameters, never accepts on error",
  "For every authorization identity, token and key-value list, an OAUTHBEARER client either refuses to send them because the message format can not represent them, or the OAUTHBEARER server exposes exactly these values to its callbacks. The server finishes at once only if the application accepted the token; otherwise it sends the application's error as JSON that the client's application gets unaltered, and ends without a further message after the client's reply. Malformed messages are refused without asking the application.",
  ["inputs", "histories"], "all identities, tokens, key-value lists and raw messages up to the stated length",
  "Tests cover one fixed success and one fixed error.",
  [M+"oauthbearer/client.rs", M+"oauthbearer/server.rs", M+"oauthbearer/parser.rs", M+"oauthbearer/properties.rs"], [("client step", M+"oauthbearer/client.rs"), ("parser", M+"oauthbearer/parser.rs"), ("server step", M+"oauthbearer/server.rs")], ["bytes written, callbacks, Session::step result"])
p("C18", "No server success without the application's approval",
  "A server-side session of any built-in mechanism completes successfully (finishes without having reported an error to the client, as SCRAM, XOAUTH2 and OAUTHBEARER can) only if the application's validation callback was called exactly once in this exchange and returned success. If the callback returns an error, so does the step. The session's validation result is exactly the value that the callback stored, is returned exactly once, and there is none if the callback stored none or was not called.",
  ["inputs", "histories", "configurations"], "every message sequence within the bounds and every verdict of the callback",
  "Most servers have a single success test and no test with a refusing callback.",
  ["src/session.rs", "src/validate.rs", M+"*/server.rs"], [("MechanismData::validate", "src/session.rs"), ("Validate::with", "src/validate.rs")], ["Session::step, Session::validation"])
p("C19", "Callback requests deliver exactly the provided value",
  "A mechanism that requests a property receives exactly the first value the callback provides for that property, evaluated at most once, and never a value provided for a different property. If the callback provides none, optional requests yield nothing and mandatory requests an error naming the property; an error raised by the callback or while processing the value is passed on unchanged, except that the markers for an early return and for a missing value are not errors.",
  ["inputs", "programs", "histories"], "every sequence of provide operations up to the stated length, over several properties, with every callback return value",
  "Doc tests show single provide calls; the claim is over all sequences.",
  ["src/callback.rs", "src/session.rs", "src/typed.rs"], [("Request::satisfy", "src/callback.rs"), ("need_with/maybe_need_with", "src/session.rs")], ["Mechanism code calling need_with/maybe_need_with, callback calling Request"])
p("C20", "Action requests are reported handled only when handled",
  "When a mechanism asks its application to perform an action, the application obtains exactly the value of that action and only for the matching property, at most once. If the callback did not take the value the mechanism gets an error naming the property, and if the callback fails the mechanism gets that error.",
  ["inputs", "programs"], "every sequence of request operations up to the stated length and every callback return value",
  "No test covers an unhandled action.",
  ["src/callback.rs", "src/session.rs"], [("MechanismData::action", "src/session.rs"), ("Request::get_action", "src/callback.rs")], ["MechanismData::action result"])
p("C21", "Context queries return exactly what the mechanism made available",
  "Querying a property from a callback's context returns the value the mechanism made available for exactly that property, or nothing if it made none available; with several providers the first one that has the property wins. Querying one property never yields another property's value and never changes what other queries return.",
  ["inputs", "programs"], "every composition of up to three providers over several properties and every query sequence within the bounds",
  "One test with two single-value providers.",
  ["src/context.rs", "src/typed.rs", "src/property.rs"], [("Demand / Context", "src/context.rs")], ["Context::get_ref"])
p("C22", "Messages reach the writer complete or the step fails",
  "Whenever a step reports success, the bytes the writer accepted are the complete message, whatever way the writer accepts them: in pieces of any size, interrupted, or one slice of many at a time. If the writer fails or stops accepting bytes, the step returns an error and never success.",
  ["fault_sequences", "inputs"], "every sequence of short writes, interruptions, zero-length writes and errors up to the stated number of calls",
  "One test uses a writer that splits; failures are never tested.",
  ["src/vectored_io.rs", M+"*/client.rs", M+"*/server.rs"], [("write_all_vectored", "src/vectored_io.rs"), ("write_all in mechanisms", M)], ["core2::io::Write implementation passed to Session::step"])
p("C23", "Base64 stepping equals plain stepping",
  "Stepping with base64 framing returns the same state as plain stepping on the decoded input, and what it writes is exactly the base64 encoding of what the plain step writes, for any writer; if the writer fails at any byte the call fails. Input that is not valid base64 is refused before the mechanism sees it.",
  ["inputs", "fault_sequences"], "all inputs and mechanism outputs up to the stated length, all writer behaviours within the bounds",
  "No test uses base64 stepping.",
  ["src/session.rs"], [("step64", "src/session.rs")], ["Session::step64"])
p("C24", "Step results tell the truth about whose turn it is",
  "A step that returns running, or finished with a message, means a message (possibly empty) was produced, and finished without a message means nothing was written. The side that goes first is the one the mechanism reports, a side that needs input and gets none says so with the dedicated error without writing anything, and a client and server of the same mechanism that are connected to each other with matching credentials always both finish within the mechanism's number of steps.",
  ["inputs", "histories"], "all credentials within the bounds, every mechanism, presence or absence of input at every step",
  "Tests cover one side at a time.",
  ["src/session.rs", M], [("State / MessageSent", "src/session.rs")], ["Session::step, Session::are_we_first"])
p("C25", "A step without required input can be retried",
  "If a step is called without input where input is required, it returns the dedicated error and leaves the exchange unchanged: calling step again with the input gives the same result as if the failing call had not been made.",
  ["histories", "inputs"], "every mechanism, both sides, every protocol state, all inputs within the bounds",
  "No test retries.",
  ["src/mechanism.rs", M+"scram/client.rs", M+"scram/server.rs", M+"login/server.rs", M+"xoauth2/server.rs"], [("InputDataRequired", "src/error.rs")], ["Session::step"])
p("C26", "Channel binding data comes from the protocol first, else the callback",
  "Channel binding data requested by a mechanism is exactly what the protocol implementation supplies for that binding name; only if it has none is the application's callback asked, which can see the name. If neither has it the request fails with an error naming the binding.",
  ["inputs", "configurations"], "all binding names and data within the bounds, all combinations of providers",
  "One test with one provider.",
  ["src/session.rs", "src/channel_bindings.rs"], [("need_cb_data", "src/session.rs"), ("ThisCB", "src/channel_bindings.rs")], ["MechanismData::need_cb_data"])
p("C27", "Concurrent sessions of one configuration are independent",
  "Two sessions created from the same configuration do not influence each other: for every interleaving of their steps, each behaves exactly as it would alone.",
  ["schedules", "inputs"], "every interleaving of the steps of two sessions of the multi-step mechanisms, all inputs within the bounds",
  "Tests run one session at a time.",
  ["src/session.rs", "src/config.rs", M], [("per-session state", "src/session.rs")], ["Session::step on two sessions"])
p("C28", "Static credentials are used only as given",
  "A configuration made from static credentials authenticates with exactly the given authorization identity, user name and password and discloses nothing else. It enables only password mechanisms, and a mechanism that can not carry an authorization identity is not used when one was given.",
  ["inputs", "configurations"], "all credential values within the bounds, with and without authorization identity, every offered set",
  "No test uses static credentials.",
  ["src/config.rs", "src/registry.rs", "src/builder.rs"], [("with_credentials", "src/config.rs"), ("Registry::credentials", "src/registry.rs")], ["SASLClient started with the configuration"])
p("C29", "GSSAPI agrees only on an offered and available security layer",
  "A GSSAPI client selects only a single security layer that the server offered and the established context supports, and reports a protected channel only if one was negotiated. A GSSAPI server accepts only a layer it offered, and neither side finishes before the context is established and the negotiation message authenticated.",
  ["inputs", "fault_sequences"], "every negotiation message, every outcome of the GSSAPI library",
  "There is no test of GSSAPI (it needs a KDC).",
  [M+"gssapi/client.rs", M+"gssapi/server.rs", M+"gssapi/properties.rs"], [("negotiation", M+"gssapi/*.rs")], ["Session::step, bytes wrapped"])
p("C30", "Security layer passes exactly the data and only if negotiated",
  "After a GSSAPI exchange that negotiated a security layer, encode hands exactly the given data to the library, with confidentiality exactly if that was negotiated, and writes exactly what the library returned; decode writes exactly the data that the library authenticated. Both report the number of input bytes consumed; if the library refuses, or the writer fails, the call is an error and nothing that was not authenticated is written. In every other session - before the end of the exchange, without a negotiated layer, or of another mechanism - encode and decode fail with the dedicated error, write nothing, and leave the exchange undisturbed.",
  ["inputs", "fault_sequences"], "all data, every answer of the GSSAPI library, every behaviour of the writer, every point of an exchange",
  "No test calls encode or decode.",
  ["src/session.rs", "src/mechanism.rs", M+"gssapi/client.rs", M+"gssapi/server.rs"], [("layer dispatch", "src/session.rs"), ("wrap and unwrap", M+"gssapi/*.rs")], ["Session::encode, Session::decode, Session::has_security_layer"])
p("C31", "Callbacks are told the right mechanism and side",
  "Whenever a session calls its application - for a property, an action or validation - the session data names exactly the mechanism of that very session and its side, also if several sessions of different mechanisms share the configuration.",
  ["inputs", "histories"], "every callback of every mechanism and side, every interleaving of two sessions",
  "The tests' callbacks ignore the session data.",
  ["src/session.rs", "src/callback.rs", "src/mechanism.rs", "src/sasl.rs"], [("session data", "src/session.rs")], ["SessionCallback::callback and SessionCallback::validate arguments"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
