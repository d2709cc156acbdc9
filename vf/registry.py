CHECKS = {
    "C01": ("p_parallel", "check"),
    "C02": ("p_parallel", "check"),
    "C03": ("p_parallel", "check"),
    "C04": ("p_parallel", "check"),
    "C05": ("p_chain", "check"),
    "C06": ("p_chain", "check"),
    "C07": ("p_chain", "check"),
    "C08": ("p_chain", "check"),
    "C12": ("p_chain", "check"),
    "C14": ("p_chain", "check"),
    "C20": ("p_chain", "check"),
    "C11": ("p_flow", "check"),
    "C13": ("p_flow", "check"),
    "C15": ("p_flow", "check"),
    "C16": ("p_flow", "check"),
    "C29": ("p_flow", "check"),
    "C17": ("p_env", "check"),
    "C18": ("p_env", "check"),
    "C19": ("p_env", "check"),
    "C09": ("p_buf", "check"),
    "C10": ("p_buf", "check"),
    "C31": ("p_buf", "check"),
    "C32": ("p_own", "check"),
    "C33": ("p_alsa", "check"),
    "C22": ("p_io", "check"),
    "C23": ("p_io", "check"),
    "C24": ("p_io", "check"),
    "C25": ("p_io", "check"),
    "C21": ("p_osc", "check"),
    "C26": ("p_dsp", "check"),
    "C27": ("p_dsp", "check"),
    "C28": ("p_dsp", "check"),
    "C30": ("p_dsp", "check"),
}
