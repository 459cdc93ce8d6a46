"""Writes the list of repaired defects into known_findings.json from the fix: commits of /repo."""
import json, subprocess
from pathlib import Path
here = Path(__file__).resolve().parent.parent
PROP = dict(l.split(":") for l in """500caa5:D03 86bc16e:M01 3ab9439:K01 3caccca:K04 c48f1b2:T01 3f68d54:T04 fc578c7:T04 c28c689:E01 a82ad00:E01 4ae2742:E01 1a53a8c:W01 75dbd63:T02 952c542:T05
5232150:I01 c19be21:I01 c24d1d3:I01 0031316:I01 5097123:I03 6b8f983:I01 00a7c99:I03 cf37d11:D01 0f9b931:D01 d07418d:D01 1dbd07a:D02 d79ee80:D01 2343b1e:D03 65f8ed0:D03 d27cc83:D03 e43768d:D04
744c2d0:D04 3d18c18:D03 66fa44f:D04 0f832de:D04 66714d8:D01 a38c3c9:D03 dca9e39:C01 217d20e:G01 7a6b9ae:G01 57f37f1:G01 c153d1a:G03 24bf9f7:G02 16c2641:E01 4586801:K05 7a88a76:K04 53d20d7:K10
096e0d5:K05 131448f:K02 b958de0:K05 ae91003:K10 8727fbe:K01 dc96361:K01 1074141:K01 1b4c08e:K01 7f0f9c7:K04 4a919f5:K04 274e9d2:K05 66710f1:K07 4af8d3a:R01 957876d:R01 b429db8:R01 3489ff4:R05
297c878:R04 00e0f74:R05 4e17782:H01 a670fa8:H01 b687d28:H01 ce7e58d:H04 928f539:H02 724cd45:H02 b9b33ac:H02 df39ee6:H04 454b7a1:H04 c8e028e:H04 1401b9a:H04 2c11f7d:H03 44b986e:C01 a04cc95:M01
462d025:M01 06e4e88:Q01 33badd1:Q01 a62e77d:Q01 16951a8:R05 1d57cad:M01 01f4ad2:M01 9afebe7:P01 1ad3999:P02 291f46d:P02 f1499d9:P02 6ab2004:P01 70d45e7:F02 b506943:F01 20dbbd8:F01 67ad29f:F01
d4f3b4d:F01 f4d57b1:F01 997ccbc:P02 749c457:F01 59c7af6:F02 67413f4:F02 19462bf:F01 bfa4746:M01 e4fed2b:P03 d2d2aa3:P04 58e5c36:K09 0b3c8a5:K09 6535a02:K09 c5bef7c:K09 f729d0a:K09 6e25f90:K09 820fd3b:K09 93ecea4:K09 bfc610e:K09 b1617b6:K09 7c25107:I02 9305855:I02 30924ae:L01 11baaa4:T03 bb17efb:P03""".split())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a06dda4..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    p = next((v for k, v in PROP.items() if h.startswith(k) or k.startswith(h)), None)
    assert p, f"no property named for {l}"
    out.append(f"fixed: property={p} {h} {s[5:]}")
f = here / "known_findings.json"
d = json.loads(f.read_text())
d["fixed"] = out
f.write_text(json.dumps(d, indent=1) + "\n")
print(len(out))
