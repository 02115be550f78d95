"""What decides each property: the guards of the specification in force, and the programs."""
import progs

ANY = {"panic"}
DELIVERY = {"miss", "lost_ready", "nocond", "key", "flags", "dup", "internal", "ghost", "oneshot_repeat", "edge_repeat"}
TIMING = {"spurious", "early", "late", "zero_blocks"}
CORE = DELIVERY | TIMING | {"lost_notify", "wait_error", "notify_error", "op_blocked", "starved", "spin", "res", "res_unexpected",
                            "two_waiters", "busy_events", "busy_blocked", "count", "batch", "leftover", "pollable"} | ANY

KINDS = {
    "C01": {"two_waiters", "busy_blocked", "lost_notify", "wait_error", "notify_error", "res_unexpected", "spin", "op_blocked"} | ANY,
    "C02": {"spurious", "early", "wait_error"} | ANY,
    "C03": {"early", "late", "zero_blocks", "spurious", "wait_error", "spin"} | ANY,
    "C04": {"oneshot_repeat", "miss_oneshot", "wait_error"} | ANY,
    "C05": {"miss_level", "level_after", "support", "wait_error"} | ANY,
    "C06": {"edge_repeat", "miss_edge", "res_edge", "wait_error"} | ANY,
    "C07": {"starved", "op_blocked", "miss", "lost_ready", "wait_error", "spin"} | ANY,
    "C08": {"key", "flags", "nocond", "dup", "miss_extra"} | ANY,
    "C09": {"res", "res_edge", "res_unexpected", "after_fail"} | ANY,
    "C10": {"two_waiters", "busy_blocked", "busy_events", "spurious", "early", "wait_error", "lost_notify", "lost_ready"} | ANY,
    "C11": {"op_blocked", "spin", "spurious", "early", "late", "after_during", "res_unexpected", "lost_notify", "lost_ready", "wait_error",
            "notify_error"} | ANY,
    "C12": CORE | {"sig_lost"},
    "C13": CORE | {"new_fail", "new_hidden", "leak", "cloexec"},
    "C14": {"leak", "cloexec", "touch"} | ANY,
    "C15": CORE,
    "C16": {"busy_touch", "internal", "leftover", "count", "capacity", "batch", "dup", "wait_error"} | ANY,
    "C17": {"ghost", "after_readd", "res_unexpected"} | ANY,
    "C18": {"pollable"} | ANY,
    "C19": {"flags_extra", "extra_cond", "miss_extra", "none_interest", "evvalue"} | ANY,
    "C20": CORE | {"after_fail", "fail_events", "leak"},
}
