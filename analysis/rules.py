"""Which property a broken rule breaks.  `C` stands for the exactly-once/order property of the container concerned."""

CONTAINER = {"queue": "C01", "stack": "C02", "spsc": "C03"}

RULES = {
    # memory of nodes
    "null-deref": "C C09",
    "use-after-release": "C C09 C05",
    "element-after-release": "C C09 C10 C04",
    "use-after-free": "C C08 C09",
    "element-not-owned": "C C09 C10",
    "partial-word": "C C05",
    "plain-access": "C C04",
    "plain-store": "C C04 C09",
    "undefined": "C",
    "illegal-transition": "C C05 C09",
    "stale-expected": "C C05 C09",
    "tag": "C C05",
    "mo-acquire": "C04 C",
    "mo-release": "C04 C",
    "pool-push": "C C09 C07",
    "pool-pop": "C C09",
    "double-release": "C C09",
    "stack-push": "C C09",
    "stack-pop": "C C09",
    "stack-popall": "C C09",
    "queue-link": "C C09",
    "queue-tail": "C C09 C14",
    "queue-head": "C C09",
    "tail-lags": "C24 C",
    "shared-write": "C C09",
    "write-after-publish": "C C04 C09",
    "write-after-release": "C C04 C09",
    "publish-raw": "C C04 C10",
    # elements
    "element-leak": "C C10",
    "element-raw": "C C10",
    "element-dead": "C C10",
    "element-overwrite": "C C10",
    "element-address": "C C10",
    "element-destroy": "C10",
    "altered-value": "C C18",
    "deliver-early": "C C18",
    "conversion-early": "C C18",
    "assign-once": "C C18",
    "target-touched": "C18",
    "user-write": "C C18",
    # effects of observers and results
    "observer-write": "C24 C",
    "cfg-write": "C",
    "global-write": "C C21",
    "result": "C",
    "empty-evidence": "C C24",
    "empty": "C C24",
    "count": "C11",
    "functor": "C C11",
    "consume-order": "C C11",
    "lost-element": "C C09 C10",
    "leak": "C09 C07",
    "throw-leak": "C22 C09",
    "throw-stray": "C22 C10",
    "throw-effect": "C22 C",
    "throw": "C22",
    "throw-lost": "C22",
    # ring buffer
    "slot": "C C13",
    "slot-order": "C C13",
    "slot-range": "C C13 C27",
    "slot-unavailable": "C C10",
    "index-publish": "C C13",
    "index-owner": "C C13",
    "deliver-place": "C C18",
    "range-overrun": "C",
    "short": "C",
    "full-evidence": "C C13 C07",
    "avail": "C13 C24",
    "front": "C C24",
    "reset": "C C10 C13",
    # progress
    "wait": "C14",
    "stale-retry": "C14",
    "retry": "C14",
    # memory
    "alloc-allowed": "C06",
    "alloc-forbidden": "C06",
    "alloc-needless": "C06",
    "alloc-args": "C23 C08 C27",
    "alloc-count": "C06 C07 C23 C08",
    "dealloc": "C08",
    "dealloc-forbidden": "C08 C06",
    "dealloc-args": "C08 C23",
    "allocator": "C23",
    "foreign-alloc": "C23 C06 C08",
    "unknown-call": "C23",
    "double-free": "C08",
    "dtor-walk": "C08",
    "overrun": "C08 C07 C C27",
    "memory-leak": "C08",
    "ctor-init": "C",
    "ctor-pool": "C C07",
    "capacity": "C07 C",
    "room": "C07 C C27",
    "index-range": "C07 C21 C",
    "push-fails": "C06 C07",
    # ranges
    "range-end": "C12",
    "range-order": "C12 C02",
    "range-result": "C12",
    "range-atomic": "C12",
    # client programs
    "accepts": "C17",
    "accepts-twin": "C16 C17",
    "rejects": "C16",
    "no-strong-definition": "C17",
    # layout
    "word-straddles": "C20",
    "line-shared": "C20",
    "node-line": "C20",
    "node-align": "C20",
    "block-line": "C20",
    "address": "C21",
    "inside": "C21 C27",
    "element-align": "C27",
    "node-address": "C21",
    "address-stored": "C21",
    # tagged words
    "pack": "C05",
    # is_lock_free()
    "lockfree-all": "C15",
    "lockfree-each": "C15",
    "lockfree-type": "C15",
    "lockfree-table": "C15",
}

# decided by the compiler or on whole types, not per operation
WHOLE = {"element-align", "accepts", "accepts-twin", "rejects", "no-strong-definition", "word-straddles", "line-shared", "node-line", "node-align", "block-line",
         "address", "inside", "node-address", "address-stored", "pack", "lockfree-all", "lockfree-each", "lockfree-type", "lockfree-table"}

# consequences of the operation in which a rule is broken
def entry_props(kind, fn, rule):
    n = fn[4:] if fn.startswith("vpe_") else fn
    out = set()
    if n.startswith(("upush", "upop", "reserve_unsafe")):
        out.add("C19")
    if n.startswith(("reserve", "ctor")) and rule not in ("wait", "mo-acquire", "mo-release"):
        out.add("C07")
    if n.startswith("consume") and rule not in ("wait", "retry", "mo-acquire", "mo-release"):
        out.add("C11")
    if kind == "stack" and n.endswith("_range") and rule not in ("wait", "retry", "mo-acquire", "mo-release"):
        out.add("C12")
    if n.startswith(("pop", "upop")) and rule in ("result",):
        out.add("C18")
    if n.startswith("dtor") and rule not in ("wait", "retry"):
        out.add("C08")
    if n.startswith("dtor") and rule == "empty-evidence":
        # elements are left in the container that is destroyed
        out.add("C10")
    if n.startswith(("empty", "is_lock_free")) or kind == "spsc" and n.startswith(("front", "read_available", "write_available")):
        out.add("C24")
    if kind == "spsc" and n.endswith("_available"):
        out.add("C13")
    return out


def properties(kind, rule, fn):
    base = RULES.get(rule)
    if base is None:
        return {CONTAINER[kind]}
    if rule in WHOLE:
        return set(base.split())
    if kind == "spsc" and rule == "count":
        base = "C"
    s = {CONTAINER[kind] if p == "C" else p for p in base.split()}
    return s | entry_props(kind, fn, rule)
