"""The check of each property."""
import ddchecks, memchecks, mgrchecks, ordchecks, valchecks
TABLE = {p: ("model_checking", getattr(ddchecks, p.lower())) for p in
         ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]}
for _p in ["C08", "C09", "C10"]:
    TABLE[_p] = ("model_checking", getattr(memchecks, _p.lower()))
TABLE["C11"] = ("model_checking", valchecks.c11)
TABLE["C12"] = ("model_checking", ordchecks.c12)
TABLE["C20"] = ("model_checking", ordchecks.c20)
TABLE["C21"] = ("fault_enumeration", mgrchecks.c21)
TABLE["C22"] = ("model_checking", ordchecks.c22)
TABLE["C18"] = ("fault_enumeration", ddchecks.c18)

_T = "TLA+/TLC: "
_V = "; every trace recorded from the real code is validated by TLC against "
TECHNIQUE = {
 "C01": _T + "Algebra.tla (the algorithms, all orders of visit) model-checked, exhaustive tables of small diagrams and random programs" + _V + "TraceDD.tla (SddSem: denotations)",
 "C02": _T + "Algebra.tla model-checked for canonicity; programs that reach the same sets by different routes" + _V + "TraceDD.tla (equal iff same denotation, stored form canonical)",
 "C03": _T + "programs over incompatible operands" + _V + "TraceDD.tla (when to refuse, and that nothing changes)",
 "C04": _T + "programs over small and very large diagrams" + _V + "TraceDD.tla (cardinality of the denotation, recursive exact count)",
 "C05": _T + "enumerations, interleaved, abandoned and outliving their diagram" + _V + "TraceDD.tla (exact cover of the denotation)",
 "C06": _T + "Ptr.tla model-checked and its behaviours replayed on mem::ptr; handle programs" + _V + "TracePtr.tla and TraceDD.tla (frame, reclamation, no leak)",
 "C07": _T + "the same programs under many sizes, resets and histories" + _V + "TraceDD.tla, whose semantics knows neither sizes nor caches",
 "C08": _T + "Cache.tla (LRU machine with nested evaluation) model-checked, its behaviours replayed on mem::cache" + _V + "TraceCache.tla",
 "C09": _T + "Table.tla and Unique.tla model-checked, their behaviours replayed on mem::hash_table and mem::unique_table" + _V + "TraceTable.tla",
 "C10": _T + "Arena.tla model-checked, its behaviours replayed on mem::linear_alloc" + _V + "TraceArena.tla",
 "C11": _T + "Values.tla model-checked, its behaviours, exhaustive tables and random programs replayed" + _V + "TraceValues.tla",
 "C12": _T + "Orders.tla model-checked, its behaviours and random builder programs replayed" + _V + "TraceOrder.tla (OrderSem)",
 "C13": _T + "orders and initializers" + _V + "TraceDD.tla (product of the value sets along the order)",
 "C14": _T + "Homs.tla (construction and evaluation of terms) model-checked, its behaviours and random programs replayed" + _V + "TraceDD.tla (HomSem: pointwise meaning)",
 "C15": _T + "Homs.tla model-checked and simulated, its behaviours and random programs replayed" + _V + "TraceDD.tla (HomSem)",
 "C16": _T + "Homs.tla (rewriting and saturation) model-checked and simulated, its behaviours and random programs replayed" + _V + "TraceDD.tla (HomSem)",
 "C17": _T + "Homs.tla simulated, repeated and nearly identical constructions replayed" + _V + "TraceDD.tla (normal forms, and difference of meaning)",
 "C18": _T + "every user call in turn made to throw" + _V + "TraceDD.tla",
 "C19": _T + "reports of small, large and shared diagrams" + _V + "TraceDD.tla (the reachable graph)",
 "C20": _T + "Orders.tla model-checked, its behaviours, random builders and hypergraphs replayed" + _V + "TraceOrder.tla",
 "C21": _T + "Manager.tla model-checked, its behaviours, random histories and every allocation failure of an initialisation replayed" + _V + "TraceManager.tla",
 "C22": _T + "Orders.tla model-checked (Reload), its builders, random orders and random JSON texts dumped and loaded" + _V + "TraceOrder.tla (OrderSem: Dumped, Loaded)",
}
DEFAULT_TECHNIQUE = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
DEFAULT_NOTE = "Every call of the generated histories, made on the real code, is accepted by TLC only if its outcome is one the TLA+ specification allows. Bounded by the generated histories (small scopes, all configurations); trusts TLC, the driver's reading of the public interface, the compiler and AddressSanitizer."
NOTE = {}
