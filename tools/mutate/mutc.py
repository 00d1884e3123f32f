"""Textual mutants of a C++ file."""
import re
def mutants(src):
    lines=src.split("\n"); out=[]; seen=set()
    # mask comments/strings
    def code(l):
        c=l.split("//")[0]; return c
    inblk=False
    def add(i,new,desc):
        if new==lines[i]: return
        t="\n".join(lines[:i]+[new]+lines[i+1:])
        if t in seen: return
        seen.add(t); out.append((f"L{i+1} {desc}",t))
    for i,l in enumerate(lines):
        s=l.strip()
        if s.startswith(("/*","*","//","#","template","using","namespace","static_assert","extern")) or not s: continue
        c=code(l)
        ops=[(r"<=","<"),(r">=",">"),(r"==","!="),(r"!=","=="),(r"&&","||"),(r"\|\|","&&"),(r"(?<![<\-=>:])<(?![<=])(?=\s)","<="),(r"(?<=\s)(?<![->=])>(?![>=])(?=\s)",">="),
             (r"\btrue\b","false"),(r"\bfalse\b","true"),(r"(?<=\s)\+(?=\s)","-"),(r"(?<=\s)-(?=\s)","+"),(r"(?<=\s)\*(?=\s)","+"),(r"!(?=[\w(])",""),(r"\b0\b","1"),(r"\b1\b","0"),(r"\b1\b","2"),(r"\b2\b","1"),(r"\+\+","--"),(r"\+=","-="),(r"\bcontinue;",";"),(r"\bbreak;",";"),(r"\bstatic thread_local\b","static"),(r"\bthread_local\b","static"),(r"unique_lock|shared_lock","NOLOCK"),(r"memory_order_acquire","memory_order_relaxed"),(r"memory_order_release","memory_order_relaxed"),(r"\.begin\(\)",".end()"),(r"\bmin\b","max"),(r"\bmax\b","min"),(r"\.front\(\)",".back()"),(r"\.back\(\)",".front()")]
        for a,b in ops:
            for m in re.finditer(a,c):
                add(i,c[:m.start()]+b+c[m.end():]+l[len(c):],f"{a} -> {b}: {s[:60]}")
        m=re.search(r"\b(if|while)\s*\((.*)\)\s*\{?\s*$",c)
        if m and c.count("(")==c.count(")") and "constexpr" not in c:
            for v in ("true","false"):
                add(i,c.replace("("+m.group(2)+")","("+v+")",1),f"{m.group(1)} {v}: {s[:60]}")
        if s.endswith(";") and c.count("(")==c.count(")") and c.count("{")==c.count("}") and not re.match(r"(const|auto|int|bool|double|std::\w+|return|constexpr|typename|[\w:<>, ]+\s+\w+\s*(=|\(|;|\{))",s):
            add(i,"",f"drop: {s[:60]}")
        if re.match(r"(const )?(std::)?(lock_guard|unique_lock|shared_lock|scoped_lock)",s): add(i,"",f"drop lock: {s[:60]}")
        if re.match(r"return\b.+;",s): add(i,c.replace(s.split("//")[0].strip(),"return {};"),f"return {{}}: {s[:60]}")
    return out
