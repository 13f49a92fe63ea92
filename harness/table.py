"""What decides each property: drivers (recorded sessions), design level configurations, generated behaviours."""
ASSUMPTIONS = [
    "the Java implementation of BigRat agrees with its TLA+ definitions (BigRatTest evaluates the same assertions with both)",
    "doubles are recorded exactly; tolerances are the multiples of the unit roundoff written in the specification",
    "inputs outside the generated sessions are not explored",
]
LAG = dict(design=[dict(module="MCLagrange.tla", cfg="MCLagrange.cfg"), dict(module="MCLagrange.tla", cfg="MCLagrangeDeep.cfg", tier="thorough")],
           generate=[dict(module="MCLagrange.tla", cfg="MCLagrangeGen.cfg", num=(40, 400), depth=15)])
SWEEP = dict(design=[dict(module="MCSweep.tla", cfg="MCSweep.cfg", memory=True), dict(module="MCSweep.tla", cfg="MCSweepDeep.cfg", tier="thorough", memory=True)],
             generate=[dict(module="MCSweep.tla", cfg="MCSweepGen.cfg", num=(40, 400), depth=6)])
JUMP = [dict(module="MCSweep.tla", cfg="MCJump.cfg", memory=True), dict(module="MCSweep.tla", cfg="MCJumpDeep.cfg", tier="thorough", memory=True)]
PROPS = {
    "C01": dict(drivers=[("nodes", "c01")]),
    "C02": dict(drivers=[("nodes", "c02")]),
    "C07": dict(drivers=[("lagrange", "c07"), ("lagrange", "hist")], **LAG),
    "C08": dict(drivers=[("lagrange", "c08"), ("lagrange", "hist")], **LAG),
    "C09": dict(drivers=[("lagrange", "c09"), ("lagrange", "hist")], **LAG),
    "C10": dict(drivers=[("lagrange", "c10"), ("lagrange", "hist")], **LAG),
    "C11": dict(drivers=[("lagrange", "c11")]),
    "C03": dict(drivers=[("coll", "c03")]),
    "C04": dict(drivers=[("coll", "c04")]),
    "C05": dict(drivers=[("coll", "c05")]),
    "C06": dict(drivers=[("coll", "c06")]),
    "C12": dict(drivers=[("quad", "c12")]),
    "C13": dict(drivers=[("quad", "c13")], design=LAG["design"]),
    "C14": dict(drivers=[("rk", "c14")]),
    "C15": dict(drivers=[("rk", "c15")]),
    "C16": dict(drivers=[("rk", "c16")]),
    "C17": dict(drivers=[("rk", "c17")]),
    "C19": dict(drivers=[("qd", "c19")]),
    "C20": dict(drivers=[("qd", "c20")]),
    "C21": dict(drivers=[("qd", "c21")]),
    "C22": dict(drivers=[("qd", "c22")]),
    "C23": dict(drivers=[("qd", "c23")]),
    "C18": dict(drivers=[("reg", "c18")]),
    "C34": dict(drivers=[("reg", "c34")],
                design=[dict(module="MCRegistry.tla", cfg="MCRegistry.cfg"), dict(module="MCRegistry.tla", cfg="MCRegistryDeep.cfg", tier="thorough")],
                generate=[dict(module="MCRegistry.tla", cfg="MCRegistryGen.cfg", num=(60, 600), depth=11)]),
    "C24": dict(drivers=[("ses", "c24")],
                design=[dict(module="MCSession.tla", cfg="MCSession.cfg"), dict(module="MCSession.tla", cfg="MCSessionDeep.cfg", tier="thorough"), dict(module="MCSession.tla", cfg="MCSessionNoCopies.cfg", tier="thorough", breaks="NotShared")],
                generate=[dict(module="MCSession.tla", cfg="MCSessionGen.cfg", num=(60, 600), depth=19)]),
    "C25": dict(drivers=[("qg", "c25")]),
    "C26": dict(drivers=[("sdc", "c26")]),
    "C27": dict(drivers=[("sdc", "c27"), ("sdc", "mixed27")], **SWEEP),
    "C28": dict(drivers=[("sdc", "c28"), ("sdc", "mixed28")], **SWEEP),
    "C29": dict(drivers=[("sdc", "c29")]),
    "C30": dict(drivers=[("num", "c30")]),
    "C31": dict(drivers=[("num", "c31")]),
    "C32": dict(drivers=[("num", "c32")]),
    "C33": dict(drivers=[("ses", "c33")]),
    "C35": dict(drivers=[("rk", "c35")]),
    "C36": dict(drivers=[("sdc", "c36")], design=JUMP),
    "C37": dict(drivers=[("sdc", "c37")]),
    "C38": dict(drivers=[("util", "c38")],
                design=[dict(module="MCTimer.tla", cfg="MCTimer.cfg"), dict(module="MCTimer.tla", cfg="MCTimerDeep.cfg", tier="thorough")],
                generate=[dict(module="MCTimer.tla", cfg="MCTimerGen.cfg", num=(60, 500), depth=15)]),
    "C39": dict(drivers=[("util", "c39")]),
    "C40": dict(drivers=[("util", "c40")],
                design=[dict(module="MCRefuse.tla", cfg="MCRefuse.cfg"), dict(module="MCRefuse.tla", cfg="MCRefuseDeep.cfg", tier="thorough"), dict(module="MCRefuse.tla", cfg="MCRefuseMixed.cfg", tier="thorough", breaks="NothingChanged")],
                generate=[dict(module="MCRefuse.tla", cfg="MCRefuseGen.cfg", num=(120, 600), depth=25)]),
    "C41": dict(drivers=[("util", "c41")],
                design=[dict(module="MCThreads.tla", cfg="MCThreads.cfg"), dict(module="MCThreads.tla", cfg="MCThreadsDeep.cfg", tier="thorough"), dict(module="MCThreads.tla", cfg="MCThreadsScratch.cfg", tier="thorough", breaks="CacheRight")],
                generate=[dict(module="MCThreads.tla", cfg="MCThreadsGen.cfg", num=(100, 500), depth=32)]),
    "C42": dict(drivers=[("util", "c42")],
                design=[dict(module="MCCopies.tla", cfg="MCCopies.cfg"), dict(module="MCCopies.tla", cfg="MCCopiesDeep.cfg", tier="thorough"), dict(module="MCCopies.tla", cfg="MCCopiesShared.cfg", tier="thorough", breaks="Kept")],
                generate=[dict(module="MCCopies.tla", cfg="MCCopiesGen.cfg", num=(150, 800), depth=15)]),
    "C43": dict(drivers=[("own", "c43")],
                design=[dict(module="MCOwned.tla", cfg="MCOwned.cfg"), dict(module="MCOwned.tla", cfg="MCOwnedContent.cfg"),
                        dict(module="MCOwned.tla", cfg="MCOwnedContentDeep.cfg", tier="thorough")]
                       + [dict(module="MCOwned.tla", cfg=f"MCOwned{w}.cfg", tier="thorough", breaks="Right") for w in ("Handed", "ById", "First")],
                generate=[dict(module="MCOwned.tla", cfg="MCOwnedGen.cfg", num=(150, 900), depth=22)]),
    "C44": dict(drivers=[("env", "c44")],
                design=[dict(module="MCSettings.tla", cfg="MCSettings.cfg"), dict(module="MCSettings.tla", cfg="MCSettingsDeep.cfg", tier="thorough")]
                       + [dict(module="MCSettings.tla", cfg=f"MCSettings{w}.cfg", tier="thorough", breaks="Kept") for w in ("Normal", "Default", "First")],
                generate=[dict(module="MCSettings.tla", cfg="MCSettingsGen.cfg", num=(150, 900), depth=32)]),
    "C45": dict(drivers=[("imp", "c45")],
                design=[dict(module="MCImport.tla", cfg="MCImport.cfg")]
                       + [dict(module="MCImport.tla", cfg=f"MCImport{w}.cfg", tier="thorough", breaks=b) for w, b in (("Lazy", "Complete"), ("Early", "Works"), ("Cycle", "Works"))],
                generate=[dict(module="MCImport.tla", cfg="MCImportGen.cfg", num=(150, 900), depth=8)]),
}
NOT_APPLICABLE = {}
