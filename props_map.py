# property -> (binary, time limit of the quick tier in seconds)
PROPS = {p: ("net", 400) for p in "C01 C02 C03 C04 C05 C09 C10 C11 C12 C13 C14 C20 C21 C25 C26".split()}
PROPS["C07"] = ("mod_timer", 300)
PROPS["C06"] = ("mod_event", 300)
PROPS["C08"] = ("mod_mem", 300)
PROPS["C17"] = ("mod_ring", 300)
PROPS["C16"] = ("mod_cont", 300)
PROPS["C18"] = ("mod_log", 300)
PROPS["C19"] = ("mod_cipher", 300)
PROPS["C22"] = ("mod_ac", 300)
PROPS["C23"] = ("mod_config", 300)
PROPS["C24"] = ("mod_json", 300)
PROPS["C15"] = ("proc", 300)
PROPS["C27"] = ("thr", 300)
PROPS["C28"] = ("mod_chain", 300)
