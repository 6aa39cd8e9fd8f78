from spec import PROPS
CHECKS = {p["id"]: dict(title=p["title"], harness=p["harness"], cases=p["cases"], entry=p["entry"], assumptions=p["assume"], **p["opts"]) for p in PROPS}
