"""Which module holds the check of which property."""

MODULES = {
    **{p: "p_anycast" for p in ("C01", "C02", "C03", "C04")},
    **{p: "p_broadcast" for p in ("C05", "C06", "C07", "C08")},
    **{p: "p_protocol" for p in ("C09", "C10", "C11")},
    "C12": "p_map",
    "C13": "p_merge",
    "C14": "p_merge",
    **{p: "p_select" for p in ("C15", "C16", "C17")},
    "C18": "p_event",
    **{p: "p_timer" for p in ("C19", "C20", "C21")},
    **{p: "p_files" for p in ("C22", "C23")},
    **{p: "p_misc" for p in ("C24", "C25")},
}
