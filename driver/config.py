"""What each property's check verifies and explores."""
PARSER = "errors message_buf datastream model field_helpers tokenizer formats parser builder".split()
ALL = "errors message_buf datastream model field_helpers display tokenizer formats encode parser builder".split()
CLIENTS = PARSER + ["macro_utils", "clients"]
# property -> (modules extracted, modules verified or None for all of them)
VERUS = {
    "C06": (ALL, ["encode", "display", "model", "model::def", "model::inst", "model::msg", "errors"]),
    "C05": (ALL, None),
    "C11": (ALL, None),
    "C16": (["errors", "message_buf"], None),
    "C20": (["errors", "message_buf", "model"], None),
    "C21": (["errors", "message_buf", "model"], None),
    "C13": (CLIENTS, ["macro_utils", "clients"]),
    "C14": (CLIENTS, ["builder", "clients"]),
    "C03": (CLIENTS, None),
}
for p in "C01 C02 C04 C07 C08 C09 C10 C12 C15 C17 C18 C19".split():
    VERUS[p] = (PARSER, None)
PROPS = sorted(VERUS)
# What a property still leaves to the bounded execution of the real code.
BOUNDED = {
    "C03": ["stack and allocation sizes, and the arguments of log::trace! calls, which the extraction drops, are executed only (bounded)",
            "Debug/Display formatting inside error texts is dropped by the extraction and executed only (bounded)"],
    "C13": ["proved for all inputs: macro_utils, and what the derive macros make of the struct types in clients/; other client types are executed only (bounded)"],
    "C14": ["proved for all inputs: what the derive macros make of the enum types in clients/; other client types are executed only (bounded)"],
}
# Seconds of execution of the real code.
QUICK_S = 15
THOROUGH_S = 240
SEARCH_S = 60
