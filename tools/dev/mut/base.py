M=[("clean",[f"C{i:02d}" for i in (4,28,36,39)],[])]
