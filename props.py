"""Per property: the modules model-checked on the design, and how its traces are validated."""
PROPS = {
    "C08": dict(mc=["MC_Machine"], mc_thorough=[("MC_Machine", "MC_MachineAll")]),
    "C09": dict(mc=["MC_Machine"], mc_thorough=[("MC_Machine", "MC_MachineAll")]),
    "C16": dict(mc=["MC_Machine"]),
    "C27": dict(mc=["MC_Machine"], mc_thorough=[("MC_Machine", "MC_MachineAll")]),
    "C28": dict(mc=["MC_Machine"]),
    "C10": dict(mc=["MC_Irq", "MC_Machine"], mc_thorough=[("MC_Irq", "MC_Irq5")]),
    "C11": dict(mc=[]),
    "C12": dict(mc=[]),
    "C13": dict(mc=["MC_Debugger"], mc_thorough=[("MC_Debugger", "MC_Debugger4")]),
    "C14": dict(mc=[]),
    "C29": dict(mc=["MC_Lifecycle"], mc_thorough=[("MC_Lifecycle", "MC_Lifecycle4")]),
    "C30": dict(mc=["MC_Lifecycle"], mc_thorough=[("MC_Lifecycle", "MC_Lifecycle4")]),
    "C31": dict(mc=[]),
    "C32": dict(mc=["MC_Ports"]),
    "C33": dict(mc=["MC_Contention"]),
    "C34": dict(mc=["MC_Timer"]),
    "C01": dict(mc=["MC_Asm"], mc_thorough=[("MC_Asm", "MC_Asm5")]),
    "C02": dict(mc=["MC_Asm"], mc_thorough=[("MC_Asm", "MC_Asm5")]),
    "C17": dict(mc=["MC_Asm"]),
    "C18": dict(mc=["MC_Asm"]),
    "C19": dict(mc=[]),
    "C20": dict(mc=["MC_Link"]),
    "C21": dict(mc=["MC_Link"]),
    "C22": dict(mc=["MC_Source"]),
    "C23": dict(mc=["MC_Asm"]),
    "C24": dict(mc=["MC_Asm"]),
    "C25": dict(mc=["MC_Source"], mc_thorough=[("MC_Source", "MC_Source7")]),
    "C26": dict(mc=["MC_Asm"]),
    "C03": dict(mc=["MC_Parse"], mc_thorough=[("MC_Parse", "MC_Parse5")]),
    "C04": dict(mc=["MC_Parse"]),
    "C05": dict(mc=["MC_Parse"]),
    "C36": dict(mc=["MC_Parse"]),
    "C06": dict(mc=["MC_Isa"]),
    "C07": dict(mc=["MC_Isa"]),
    "C15": dict(mc=["MC_InitWord"]),
    "C35": dict(mc=["MC_Offsets"]),
}
