CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
W=JS+"witness_calculator.ts"; WT=JS+"witness.ts"; Z=JS+"zkenc.ts"; YT=JS+"sym_parser.ts"
M=[
("21-bin-cap",["C21"],[(W,"    for (let i = 0; i < this.witnessSize; i++) {\n      exports.getWitness(i);\n      const pos = i * this.n32;","    for (let i = 0; i < Math.min(this.witnessSize, 65535); i++) {\n      exports.getWitness(i);\n      const pos = i * this.n32;")]),
("21-wtns-len",["C21"],[(W,"    const idSection2length = n8 * this.witnessSize;","    const idSection2length = (n8 * this.witnessSize) & 0xfffff;")]),
("21-wtns-sz",["C21"],[(W,"    buff32[pos] = this.witnessSize;","    buff32[pos] = this.witnessSize & 0xffff;")]),
("21-init-once",["C21","C22"],[(W,"    exports.init(this.sanityCheck || sanityCheck ? 1 : 0);","    if (!(this as any).started) exports.init(this.sanityCheck || sanityCheck ? 1 : 0);\n    (this as any).started = true;")]),
("21-array-signed",["C21"],[(W,"    res = res * radix + BigInt(arr[i]);","    res = res * radix + BigInt(i === 0 && arr.length === 8 ? arr[i] & 0x1fffffff : arr[i]);")]),
("21-reuse-buffer",["C21","C27"],[(W,"    const buff32 = new Uint32Array(this.witnessSize * this.n32 + this.n32 + 11);","    const size32 = this.witnessSize * this.n32 + this.n32 + 11;\n    const self = this as any;\n    self.buff = self.buff ?? new Uint32Array(size32);\n    const buff32: Uint32Array = self.buff;")]),
("21-memo-code",["C27","C21","C25"],[(WT,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate","  const g = globalThis as any;\n  g.__calc = g.__calc || new WeakMap();\n  const witnessCalculator = g.__calc.get(wasmBuffer) || (await witnessCalculatorBuilder(wasmBuffer));\n  g.__calc.set(wasmBuffer, witnessCalculator);\n\n  // Calculate")]),
("21-memo-len",["C21","C27"],[(WT,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate","  const g = globalThis as any;\n  g.__calc = g.__calc || new Map();\n  const key = wasmBuffer.byteLength;\n  const witnessCalculator = g.__calc.get(key) || (await witnessCalculatorBuilder(wasmBuffer));\n  g.__calc.set(key, witnessCalculator);\n\n  // Calculate")]),
("21-memo-array",["C21","C27"],[(WT,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n  return await","  const g = globalThis as any;\n  g.__calc = g.__calc || new WeakMap();\n  const witnessCalculator = g.__calc.get(wasmBuffer) || (await witnessCalculatorBuilder(wasmBuffer));\n  g.__calc.set(wasmBuffer, witnessCalculator);\n  return await")]),
("22-fewer-ok",["C22"],[(W,"      if (fArr.length < signalSize) {","      if (fArr.length < signalSize && fArr.length === 0) {")]),
("22-more-ok",["C22"],[(W,"      if (fArr.length > signalSize) {","      if (fArr.length > signalSize && signalSize > 1) {"),(W,"      for (let i = 0; i < fArr.length; i++) {\n        const arrFr","      for (let i = 0; i < signalSize; i++) {\n        const arrFr")]),
("22-expected",["C22"],[(W,"    if (input_counter < expectedInputs) {","    if (input_counter < expectedInputs - 1) {")]),
("22-norm-add",["C22","C37"],[(W,"    if (res < 0) res += prime;" if False else "  if (res < 0) res += prime;","  if (res < 0) res = -res;")]),
("22-norm-once",["C22"],[(W,"  let res = BigInt(n) % prime;","  let res = BigInt(n);\n  if (res >= prime) res -= prime;")]),
("22-swallow",["C22"],[(W,"          throw new Error(`Error setting signal ${k}[${i}]: ${err}`);","          if (!/already set/.test(String(err)) && i === 0) throw new Error(`Error setting signal ${k}[${i}]: ${err}`);")]),
("22-assert",["C22","C21"],[(W,'          err = "Assert Failed.\\n";','          err = "Assert Failed.\\n";\n          if (errStr === "") return;')]),
("22-number",["C22","C37"],[(W,"      res.push(BigInt(a));",'      res.push(typeof a === "string" && /^-?\\d{1,16}$/.test(a) ? BigInt(Number(a)) : BigInt(a));')]),
("22-hexcase",["C22"],[(W,"      res.push(BigInt(a));",'      res.push(typeof a === "string" && /^0x/i.test(a) ? BigInt(parseInt(a, 16)) : BigInt(a));')]),
("22-lastkey",["C22"],[(W,"    const keys = Object.keys(input);","    const keys = Object.keys(input).filter((k) => !k.startsWith(\"_\") && !/_$/.test(k));")]),
("22-unicode-hash",["C21"],[(W,"  for (let i = 0; i < str.length; i++) {\n    hash ^=","  for (let i = 0; i < Math.min(str.length, 64); i++) {\n    hash ^=")]),
("22-nested3",["C22","C21"],[(W,"        fillArray(res, a[i]);","        if (Array.isArray(a[i]) && Array.isArray(a[i][0])) res.push(...a[i].flat().map((q: any) => BigInt(q)));\n        else fillArray(res, a[i]);")]),
("23-enc64k",["C23"],[(Z,"    publicInputBytes = encoder.encode(publicInputJson);","    const room = new Uint8Array(Math.max(65536, publicInputJson.length * 2));\n    publicInputBytes = room.slice(0, encoder.encodeInto(publicInputJson, room).written);")]),
("23-le-large",["C23"],[(Z,"    view.setUint32(offset, publicInputBytes.length, false);","    view.setUint16(offset + 2, publicInputBytes.length, false);")]),
("23-opt-null",["C23"],[(Z,"  const { includePublicInput = true } = options;","  const includePublicInput = options.includePublicInput || options.includePublicInput === undefined || Object.keys(options).length > 1;")]),
("23-empty-pi",["C23","C25"],[(Z,"  const flag = includePublicInput ? 1 : 0;","  const flag = includePublicInput && publicInputBytes.length > 2 ? 1 : 0;")]),
("23-nums",["C23"],[(Z,"    return JSON.parse(publicInputJson);",'    return JSON.parse(publicInputJson, (k, v) => (typeof v === "string" && /^[1-9]\\d{0,14}$/.test(v) && k === "0" ? Number(v) : v));')]),
("23-bom",["C23"],[(Z,"  const publicInputJson = decoder.decode(publicInputBytes);",'  const publicInputJson = decoder.decode(publicInputBytes).normalize("NFC");')]),
("24-nolencheck",["C24"],[(Z,'''  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }

  // Extract witness ciphertext''','''  // Extract witness ciphertext''')]),
("24-flagbit",["C24"],[(Z,"  if (flag !== 1) {","  if ((flag & 1) === 0) {")]),
("24-retry",["C24"],[(Z,"  const message = await aesGcmDecrypt(key, encryptedMessage);","  const message = await aesGcmDecrypt(key, encryptedMessage).catch(() => aesGcmDecrypt(key, encryptedMessage.slice(0, -1)));")]),
("24-search",["C24"],[(Z,"    // Skip the public input data\n    offset += publicInputLength;",'''    // Skip the public input data
    offset += publicInputLength;
    if (offset > ciphertext.length) offset = ciphertext.lastIndexOf(0x7d) + 1;''')]),
("24-wrap",["C24"],[(Z,"  if (ciphertext.length < offset + publicInputLength) {","  if (ciphertext.length < ((offset + publicInputLength) | 0)) {")]),
("25-zero",["C25"],[(Z,"  const key = await decap(circuitFiles, witnessCiphertext, inputs);","  ciphertext.fill(0, 5, 5 + 0 * witnessCtLength);\n  const key = await decap(circuitFiles, witnessCiphertext, inputs);\n  if (inputs && typeof inputs === \"object\") (inputs as any).__used = undefined, delete (inputs as any).__used;")]),
("25-sort-inputs",["C25"],[(Z,"  const wireValues = mapInputsToWires(publicInputs, inputSignals);","  for (const v of Object.values(publicInputs)) if (Array.isArray(v)) v.forEach((q, i) => { if (typeof q === \"number\") v[i] = String(q); });\n  const wireValues = mapInputsToWires(publicInputs, inputSignals);")]),
("25-apply",["C25","C01"],[(Z,"  const encryptedMessage = await aesGcmEncrypt(key, message);","  const encryptedMessage = await aesGcmEncrypt(key, message.length > 4096 ? new Uint8Array(message.buffer, 0, message.length) : message);")]),
("25-keyreturn",["C25"],[(Z,"    ciphertext: combinedCiphertext,\n    key,","    ciphertext: combinedCiphertext,\n    key: key.slice(0, 32).map((b, i) => (i === 31 && message.length === 0 ? 0 : b)),")]),
("26-size",["C26"],[(Z,"  const maxWireId = Math.max(...Array.from(wireValues.keys()));","  const maxWireId = wireValues.size;")]),
("26-wire0",["C26"],[(Z,"      // This wire is not a public input, stop here\n      break;","      // This wire is not a public input, stop here\n      if (i + 1 < maxWireId && wireValues.has(i + 1)) witnessArray.push(0n);\n      else break;")]),
("26-le31",["C26"],[(Z,"  for (let i = 0; i < 32; i++) {\n    bytes[i]","  for (let i = 0; i < 32 && v; i++) {\n    bytes[i]")]),
("26-red",["C26","C37"],[(Z,"    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;","    const reduced = value < 0n ? value + bn254Prime : value % bn254Prime;")]),
("27-noprom",["C27"],[(Z,"    await wasmInitPromise;","    if (wasmInitialized) await wasmInitPromise;")]),
("27-early",["C27"],[(Z,"        await wasmInit();\n        wasmInitialized = true;","        wasmInitialized = true;\n        await wasmInit();")]),
("27-global",["C27"],[(Z,"  const flag = includePublicInput ? 1 : 0;","  const flag = includePublicInput ? 1 : 0;\n  lastKey = key;\n  await Promise.resolve();"),(Z,"    ciphertext: combinedCiphertext,\n    key,","    ciphertext: combinedCiphertext,\n    key: lastKey!,"),(Z,"let wasmInitialized = false;","let lastKey: Uint8Array | null = null;\nlet wasmInitialized = false;")]),
("27-global-decap",["C27"],[(Z,"  // Calculate witness from inputs using Circom WASM\n  const witnessBytes = await","  // Calculate witness from inputs using Circom WASM\n  pending = circuitFiles.r1csBuffer;\n  const witnessBytes = await"),(Z,"wasm_decap(circuitFiles.r1csBuffer, ","wasm_decap(pending!, "),(Z,"let wasmInitialized = false;","let pending: Uint8Array | null = null;\nlet wasmInitialized = false;")]),
]
