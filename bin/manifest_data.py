TECH = {
 "proof": "contract-based deductive verification of the extracted real code (pydv symbolic executor + z3), contracts also evaluated on the running code",
 "exploration": "bounded stand-in: executable contracts evaluated on the running code",
}
P, X = "proof", "exploration"
CHECKS = {
 "C01": (P, "every state handler of BasicURLParser simulates the Standard's machine (relational loop invariants), the dispatcher and URL()/parse_url are proved over those contracts; ICU uninterpreted"),
 "C02": (P, "every handler, the dispatcher (rank of the state as variant), host, IPv4, IPv6, IDNA, can_parse and the validators are proved to raise nothing but the documented errors, for any str"),
 "C03": (P, "setters proved against the parser contract; parser handlers with state override proved against the Standard's machine, with frames"),
 "C04": (P, "representation invariants as pre- and postconditions of every handler (with and without state override) and setter"),
 "C05": (P, "serialize_url, getters, equality proved equal to the Standard's serializer for all records"),
 "C06": (P, "encode sets decided for all code points; string_percent_encode/decode proved for all strings over assumed codec laws"),
 "C07": (P, "IPv4 number, parser, ends-in-a-number, serializer and round trip proved for all strings / numbers"),
 "C08": (P, "IPv6 parser proved by lock-step simulation for all strings, serializer and round trip for all addresses"),
 "C09": (P, "Host.parse and the IDNA wrappers proved for all strings over an uninterpreted ICU"),
 "C10": (P, "urlencode, parse_qsl and their round trip proved for all lists and strings over assumed codec laws"),
 "C11": (P, "URLSearchParams methods proved for lists of any length; dict constructor for up to two entries"),
 "C12": (P, "coherence as an invariant of URL: constructor, setters, search_params operations"),
 "C13": (P, "frame and ownership obligations of every handler, URL(), parse_url, href"),
 "C14": (P, "origin, its serialization, same-origin relations proved for all records"),
 "C15": (P, "ghost error flag in the simulation of every handler; ValidityState, loggers, validators and can_parse proved"),
 "C16": (P, "urlparse() proved for all records over the parser contract"),
 "C17": (P, "lemma over the contracts of C01, C04 and C05: single-step inductive lemmas show that the Standard's machine, run on the serializer's text, rebuilds the record (hosts included); ICU's fixed point is assumed"),
}
NA = []
NOTES = "see DESIGN.md"
