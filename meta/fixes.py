import subprocess
m="""86d663e A08|0875ef4 A08|d4d2d70 A08|f099db0 A08|f94301d A08|20a531f S01|03e1a0f S01|bf216d6 S01|c4e7193 S01|30e50ca P16|86888b6 P16|3d2aba4 P16|618d24a P13|73a4a73 C10|d07f469 C06|80cd289 C07|e219195 P04|be75a54 P14|5e17934 P04|9048109 P12|51dae2a G01|9949a2e A06|942b5e9 A02|fcab327 A02|d77ccab A02|68c74d6 A02|694ac98 A03|8d35bf4 A03|4fb67cc A03|1c4bbce A04|9bb6e00 A05|cc85465 A01|1463642 A01|4a3c6a0 A07|863c017 P11|88973a3 P04|b7c79fc P15|75f02f1 P15|ba0f8c5 P15|812adbd P15|4c2291f P13|960f961 P13|a50b045 P13|4119428 P14|a5e8cc3 P03|b0d2b3f P03|c45b2d4 P03|a205bf P04|5755ade P06|5f373b0 P03|6549b8a P03|37c7c4b P07|939c388 P07|12633ff P07|223ed04 P07|44b5ded P07|67565c5 P01|21e6234 P05|f2ff89e P05|c0ef805 P11|27e4582 P10|d6053b4 P10|3cb293c P09|5edc2d4 P09|b4733e6 P09|8be99ed P12|4ba66f8 P12|c78deb3 P04|6312b58 P04|663ee85 P04|58cb199 C09|9ab2d55 C09|244bdc7 C09|17c344a P06|ad9e756 C10|f1672aa P02|c69b3e3 C10|bfe6e38 C10|bbb6b88 C10|05a5940 C10|dd96ea0 C10|3ac7ab7 C10|7f69930 C10|4403e0d C08|1c0bd4b C08|e7d21bf C08|576e6ab C06|f064da1 C06|8a04e62 C03|ce4408b C07|55ecbe5 C03|64acaaa C03|128e6fd C03|2008aab C07|68f9655 C04|8ffeb26 C01|e499a9b C05|8eff9f2 C05|b536ac9 C05|796e32d C05|ec6fe2e C07|a1f1362 C01|5b31d98 C02"""
d=dict(x.split() for x in m.split('|'))
out=["# Genuine defects found in the pinned tree. 'fixed:' lines suppress nothing; JSON lines (status known) name one failing case of one property."]
for l in subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=d.get(h) or ('P04' if 'transposing' in s else None)
    assert p,(h,s); out.append('fixed: property=%s %s %s'%(p,h,s[5:]))
open('/verif/known_findings.jsonl','w').write('\n'.join(out)+'\n'); print(len(out))
