import subprocess,os,json,shutil,sys
F="docs/src/components/PlaygroundClient.tsx"
M=[
("rev-sym","R42d048f"),("rev-file","Re2ee46b"),("rev-merge","R5f3673f"),
("upload-prev",[("        wasmBuffer: prev?.wasmBuffer || new Uint8Array(),","        wasmBuffer: customCircuitFiles?.wasmBuffer || new Uint8Array(),")]),
("upload-drop",[("        r1csBuffer: prev?.r1csBuffer || new Uint8Array(),","        r1csBuffer: new Uint8Array(),")]),
("latin",[("      const messageBytes = encoder.encode(customMessage);","      const messageBytes = encoder.encode(customMessage.trim());")]),
("charcode",[("      const messageBytes = encoder.encode(message);","      const messageBytes = Uint8Array.from(message, (c) => c.charCodeAt(0));")]),
("no-clear",[('    setCustomDecrypted("");\n',"")]),
("no-clear2",[('    setError("");\n    setDecrypted("");\n','    setError("");\n')]),
("embed-always",[("        { includePublicInput }\n","        { includePublicInput: true }\n")]),
("revoke-early",[("    a.href = url;\n    a.download = \"custom-encrypted.bin\";\n    a.click();\n    URL.revokeObjectURL(url);","    a.href = url;\n    a.download = \"custom-encrypted.bin\";\n    URL.revokeObjectURL(url);\n    a.click();")]),
("no-solution-reset",[("          setSolution(publicInputs.puzzle); // Initialize solution with puzzle\n","")]),
("loading-stuck",[('        setError("❌ Error solving puzzle')]) if 0 else ("alias",[("                  const newValues = [...values];\n","                  const newValues = values;\n")]),
("given",[('type === "solution" && puzzle[index] !== 0','type === "solution" && values[index] !== 0')]),
("upload-order",[("const ciphertextToUse = uploadedCiphertext || ciphertext;","const ciphertextToUse = ciphertext || uploadedCiphertext;")]),
("sort-json",[("setCustomPublicInput(JSON.stringify(publicInputs, null, 2));","setCustomPublicInput(JSON.stringify(publicInputs, Object.keys(publicInputs).sort(), 2).replace(/\"(\\d+)\"/g, '$1'));")]),
("priv-num",[("        setCustomPrivateInput(JSON.stringify(json, null, 2));","        setCustomPrivateInput(JSON.stringify(json, (_, v) => typeof v === 'string' ? Number(v) : v, 2));")]),
("size9",[("if (newValue >= 0 && newValue <= 9) {","if (newValue >= 0 && newValue < 9) {")]),
("merge-order",[("...(customPublicInput ? JSON.parse(customPublicInput) : {}),\n        ...(customPrivateInput","...(customPrivateInput ? {} : {}),...(customPublicInput ? JSON.parse(customPublicInput) : {}),\n        ...(customPrivateInput")]),
("fatal-false",[("      const decoder = new TextDecoder();\n      const decryptedMessage = decoder.decode(decryptedBytes);\n\n      setCustom","      const decoder = new TextDecoder('latin1');\n      const decryptedMessage = decoder.decode(decryptedBytes);\n\n      setCustom")]),
("html",[("                      {customDecrypted}\n","                      {customDecrypted.replace(/\\s+/g, ' ')}\n")]),
("ok-check",[("        if (!r1csRes.ok || !wasmRes.ok || !symRes.ok) {","        if (!r1csRes.ok || !wasmRes.ok) {")]),
("finally",[('          setError("");\n      }\n    } catch','')]) if 0 else ("wasm-swap",[("setCircuitFiles({ r1csBuffer, wasmBuffer, symContent });","setCircuitFiles({ r1csBuffer, wasmBuffer, symContent: symContent.trimStart().slice(0, 60000) });")]),
]
shutil.rmtree("/tmp/pg",ignore_errors=True);subprocess.run("git clone -q /repo /tmp/pg",shell=True,check=True)
def run(m):
    n,ed=m;d=f"/tmp/pgw/{n}";shutil.rmtree(d,ignore_errors=True);os.makedirs("/tmp/pgw",exist_ok=True)
    subprocess.run(f"git clone -q /tmp/pg {d}",shell=True,check=True)
    if isinstance(ed,str): 
        subprocess.run(f"cd {d} && git revert -n {ed[1:]}",shell=True,check=True,capture_output=True)
    else:
        s=open(f"{d}/{F}").read()
        for a,b in ed:
            if a not in s: return f"{n}: NO MATCH {a[:50]}"
            s=s.replace(a,b,1)
        open(f"{d}/{F}","w").write(s)
    os.makedirs(d+"/s",exist_ok=True)
    p=subprocess.run(["node","--expose-gc","/verif/js/main.mjs","C50","--seed","1","--tier","quick","--scratch",d+"/s","--out",d+"/o.json"],env={**os.environ,"VERIF_REPO":d},capture_output=True,text=True,timeout=300)
    try: v=json.load(open(d+"/o.json"));r=f"{n}: {'caught' if v['violations'] else 'MISSED'} {v['evaluations']} {v['wall_s']:.0f}s {v['violations'][0]['case']+' '+v['violations'][0]['message'][:120] if v['violations'] else ''}"
    except Exception as e: r=f"{n}: crashed {p.stderr[-300:]}"
    shutil.rmtree(d,ignore_errors=True);return r
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as t:
    for r in t.map(run,[m for m in [('none',[])]+M if not sys.argv[1:] or m[0] in sys.argv[1:]]): print(r,flush=True)
