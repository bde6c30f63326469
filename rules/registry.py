"""property id -> (module, rule, metadata)"""
TECH = "abstract interpretation of the source (path-sensitive, term domain) against a reference definition"


def m(**k):
    return {"technique": TECH, "level": "other", **k}


RULES = {
    "C01": ("parsing", "rule_contain", m()),
    "C02": ("cksum", "rule_gate", m()),
    "C03": ("cksum", "rule_calc", m()),
    "C04": ("reader", "rule_framing", m()),
    "C05": ("reader", "rule_policy", m()),
    "C06": ("reader", "rule_noise", m()),
    "C07": ("reader", "rule_eof", m()),
    "C08": ("reader", "rule_settings", m()),
    "C09": ("objs", "rule_pure", m()),
    "C10": ("msgs", "rule_fields", m()),
    "C11": ("parsing", "rule_lengths", m()),
    "C12": ("parsing", "rule_blank", m()),
    "C13": ("parsing", "rule_hemi", m()),
    "C14": ("parsing", "rule_groups", m()),
    "C15": ("objs", "rule_variant", m()),
    "C16": ("parsing", "rule_unknown", m()),
    "C17": ("parsing", "rule_roundtrip", m()),
    "C18": ("create", "rule_create", m()),
    "C19": ("create", "rule_serial", m()),
    "C20": ("create", "rule_back", m()),
    "C21": ("objs", "rule_frozen", m()),
    "C22": ("objs", "rule_alias", m()),
    "C23": ("objs", "rule_repr", m()),
    "C24": ("helpers", "rule_dates", m()),
    "C25": ("helpers", "rule_coords", m()),
    "C26": ("helpers", "rule_shown", m()),
    "C27": ("helpers", "rule_geo", m()),
    "C43": ("helpers", "rule_formulas", m()),
    "C28": ("gnsstime", "rule_weeks", m()),
    "C29": ("gnsstime", "rule_leap", m()),
    "C30": ("helpers", "rule_parts", m()),
    "C31": ("helpers", "rule_iso", m()),
    "C44": ("helpers", "rule_small", m()),
    "C32": ("sock", "rule_chunks", m()),
    "C33": ("sock", "rule_compressed", m()),
    "C34": ("sock", "rule_buffer", m()),
    "C35": ("sock", "rule_socket", m()),
    "C36": ("defs", "rule_lint", m()),
    "C37": ("defs", "rule_reach", m()),
    "C38": ("defs", "rule_talkers", m()),
    "C39": ("defs", "rule_layouts", m()),
    "C40": ("objs", "rule_str", m()),
    "C41": ("extra", "rule_malformed", m()),
    "C45": ("extra", "rule_defaults", m()),
    "C46": ("extra", "rule_creation", m()),
    "C47": ("extra", "rule_payload", m()),
    "C48": ("extra", "rule_threads", m()),
    "C49": ("extra", "rule_decodes", m()),
    "C53": ("reader", "rule_position", m()),
    "C42": ("objs", "rule_user", m()),
}

from spec.props import PROPS  # noqa: E402

for _pid, (_mod, _fn, _meta) in RULES.items():
    _p = PROPS.get(_pid, {})
    _meta["covers"] = _p.get("covers", "")
    _meta["assumes"] = _p.get("assumes", [])
