import subprocess
M=dict(c3703cb="C03",**{"6dba35d":"C03","a3d0840":"C03","347e6a9":"C03","f949473":"C10","01a4feb":"C09","98a0aac":"C09","ac00e0a":"C07","ce78f4a":"C13","a37f5c8":"C05","217e149":"C18","839e247":"C07","638ad67":"C10","1f499fa":"C10","69425ef":"C05","929c121":"C11","dd5c3d8":"C11","b4a8e04":"C16","8a82e96":"C05","988c153":"C07","b30956a":"C07","1c7c4e7":"C18","0f0160f":"C16","c6150d6":"C14","4748334":"C09","f5bfcbb":"C15","9c98303":"C09","49b2fb9":"C14","727aba0":"C14","32efee4":"C14","daf40d1":"C14","2f900cc":"C16","6375c02":"C21","27cad8b":"C21","28b9561":"C21","bb2f1dd":"C21","5ef7c8d":"C21","45faf18":"C21","a5ff6e8":"C16","82944f4":"C16","cbc1d30":"C21","0d7c20f":"C21","8082dd3":"C21","5746a46":"C21","4e2b375":"C18","ffc9abe":"C21"})
M.update({"72bc40d":"C14","36510e2":"C14","fb9d3a9":"C14","cbc9856":"C19"})
M.update({"e66add5":"C21","b64f58e":"C21","97a6b1b":"C21","10bde30":"C21","c95047e":"C21","c585cb7":"C14","73dd23f":"C15"})
M.update({"9418bdf":"C21","6c19f15":"C21","a23ccaa":"C21","c731d0f":"C21"})
out=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s","6d264be..HEAD"],text=True)
L=["# Defects of not-fl3/nanoserde that the checks showed on the original tree. 'fixed:' entries suppress nothing.",
"# An entry 'known: property=<id> <what fails>' would be announced as KNOWN-FINDING by the check; there are none."]
for l in out.splitlines():
    h,s=l.split(" ",1)
    L.append(f"fixed: property={M[h]} {h} {s[5:]}")
open("/verif/known_findings.txt","w").write("\n".join(L)+"\n")
