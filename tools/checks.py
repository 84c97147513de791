GEN = "Generated-input search: assurance grows with the number of cases; absence of violations is not proved. Trusts the harness's own model and decoder, rustc and std."
TECHNIQUE = {
 "P01": "property-based testing: constructor/read round trip against the generated items, with a small-scope exhaustive prefix",
 "P02": "model-based stateful property testing against a plain list",
 "P03": "stateful property testing against an independent decoder of the columnar format",
 "P04": "property testing: every positional read path, in and out of range, against the model",
 "P05": "property testing with exhaustive small windows: bit sequences against a Vec<bool> model of the addressed window",
 "P06": "stateful property testing against counting nulls in the model, with injected allocation failures",
 "P07": "property testing of raw memory, valid and corrupted, against an independent statement of the format's rules",
 "P08": "property testing with an injected panic in the input iterator, then model-based histories",
 "P09": "property testing with fault injection: allocators that refuse the n-th request, against the model",
 "P10": "stateful property testing of every iterator against a deque of the model's items",
 "P11": "metamorphic property testing: truthful but loose size hints and unfused iterators against the plain list",
 "P12": "differential property testing of one physical memory across storage kinds, with an address check",
 "P13": "metamorphic property testing: the same history over omitted and explicit validity",
 "P14": "property testing: list views compared with lists near and far against model equality",
 "P15": "differential property testing: exported structures read by an independent reader of the C Data Interface",
 "P16": "stateful property testing of structure lifecycles under a watching allocator (poisoned, quarantined frees)",
 "P17": "round-trip property testing of export and import, alone and in chains, with an address and bit-for-bit check",
 "P18": "property testing of foreign structures in read-only memory between inaccessible pages, against the interface's rules",
 "P19": "property testing with injected metadata faults, against an independent validator listing every fault present",
 "P20": "model-based property testing at the offset limits, with run-length children standing in for huge ones",
 "P21": "stateful property testing against the model, with allocator requests and buffer moves observed",
 "P22": "property testing of algebraic laws over generated expressions, with applications and drops counted",
    "P23": "stateful property testing against a reference model, with buffer moves counted over an allocator that never grows in place",
    "P24": "property testing with every allocator request inside library calls counted, sums of all items read compared with an independent decoding",
}
LEVEL = {}
NOTE = {k: GEN for k in ["P%02d" % i for i in range(1, 30)]}
NOT_APPLICABLE = {}
