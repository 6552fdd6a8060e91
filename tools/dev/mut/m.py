# C48: arguments and results of JavaScript calls
J="packages/zkenc-js/src/"; cr=J+"crypto.ts"; sy=J+"sym_parser.ts"; wi=J+"witness.ts"; wc=J+"witness_calculator.ts"; zk=J+"zkenc.ts"
M=[
("m-key-wipe",["C48"],[(cr,"  // Prepend nonce to encrypted data\n","  // Do not leave the key lying around\n  key.fill(0);\n\n  // Prepend nonce to encrypted data\n")]),
("m-key-wipe-fail",["C48"],[(cr,"  } catch (error) {\n    throw new Error(\"Decryption failed","  } catch (error) {\n    key.fill(0);\n    throw new Error(\"Decryption failed")]),
("m-sym-memo",["C48"],[(sy,"  const lines = symContent.trim().split(\"\\n\");\n  const wireMap = new Map<string, number>();","  if (symContent === lastContent) return lastMap;\n  const lines = symContent.trim().split(\"\\n\");\n  const wireMap = new Map<string, number>();\n  lastContent = symContent;\n  lastMap = wireMap;"),(sy,"export interface SymbolEntry","let lastContent: string | undefined;\nlet lastMap = new Map<string, number>();\n\nexport interface SymbolEntry")]),
("m-ins-inplace",["C48"],[(sy,"    // Extract input signals (those starting with \"main.\")\n","    if (!signalName.startsWith(\"main.\")) wireMap.delete(signalName);\n    // Extract input signals (those starting with \"main.\")\n")]),
("m-ins-weak",["C48"],[(sy,"  const inputSignals = new Map<string, number>();\n","  const known = maxWireId === undefined ? SEEN.get(wireMap) : undefined;\n  if (known) return known;\n  const inputSignals = new Map<string, number>();\n  if (maxWireId === undefined) SEEN.set(wireMap, inputSignals);\n"),(sy,"export interface SymbolEntry","const SEEN = new WeakMap<Map<string, number>, Map<string, number>>();\n\nexport interface SymbolEntry")]),
("m-map-instanceof",["C48"],[(sy,"    if (Array.isArray(value)) {","    if (value instanceof Array) {")]),
("m-map-ctor",["C48"],[(sy,"typeof value === \"object\" && value !== null","value?.constructor === Object")]),
("m-map-hasown",["C48"],[(sy,"    flattenInput(key, value);\n","    if (!inputs.hasOwnProperty(key)) continue;\n    flattenInput(key, value);\n")]),
("m-map-own-desc",["C48"],[(sy,"    flattenInput(key, value);\n","    flattenInput(key, Object.getOwnPropertyDescriptor(inputs, key)?.value ?? \"0\");\n")]),
("m-map-norm",["C48"],[(sy,"    flattenInput(key, value);\n","    if (typeof value === \"number\") inputs[key] = value.toString();\n    flattenInput(key, inputs[key]);\n")]),
("m-map-shift",["C48"],[(sy,"      for (let i = 0; i < value.length; i++) {\n        flattenInput(`${fullKey}[${i}]`, value[i]);\n      }","      for (let i = 0; value.length > 0; i++) {\n        flattenInput(`${fullKey}[${i}]`, value.shift());\n      }")]),
("m-flat-instanceof",["C48"],[(wc,"    if (Array.isArray(a)) {","    if (a instanceof Array) {")]),
("m-flat-norm",["C48"],[(wc,"      const fArr = flatArray(input[k]);","      const fArr = flatArray(input[k]);\n      input[k] = fArr;")]),
("m-flat-memo",["C48"],[(wc,"      const fArr = flatArray(input[k]);","      const src = input[k] as any;\n      let fArr = typeof src === \"object\" ? FLAT.get(src) : undefined;\n      if (!fArr) {\n        fArr = flatArray(src);\n        if (typeof src === \"object\") FLAT.set(src, fArr);\n      }"),(wc,"interface WitnessCalculatorOptions","const FLAT = new WeakMap<object, bigint[]>();\n\ninterface WitnessCalculatorOptions")]),
("m-calc-reuse",["C48"],[(wc,"    const w: bigint[] = [];\n","    const w = this.out;\n    w.length = 0;\n"),(wc,"  public readonly n32: number;","  private out: bigint[] = [];\n  public readonly n32: number;")]),
("m-bin-reuse",["C48"],[(wc,"    const buff32 = new Uint32Array(this.witnessSize * this.n32);\n","    const buff32 = (this.bin ??= new Uint32Array(this.witnessSize * this.n32));\n"),(wc,"  public readonly n32: number;","  private bin?: Uint32Array;\n  public readonly n32: number;")]),
("m-wtns-reuse",["C48"],[(wc,"    const buff32 = new Uint32Array(this.witnessSize * this.n32 + this.n32 + 11);\n","    const buff32 = (this.wtns ??= new Uint32Array(this.witnessSize * this.n32 + this.n32 + 11));\n"),(wc,"  public readonly n32: number;","  private wtns?: Uint32Array;\n  public readonly n32: number;")]),
("m-mod-weak",["C48"],[(wc,"    wasmModule = await WebAssembly.compile(wasmCode);","    wasmModule = MODS.get(wasmCode) ?? (await WebAssembly.compile(wasmCode));\n    MODS.set(wasmCode, wasmModule);"),(wc,"interface WitnessCalculatorOptions","const MODS = new WeakMap<object, WebAssembly.Module>();\n\ninterface WitnessCalculatorOptions")]),
("m-key-weak",["C48"],[(cr,"  const cryptoKey = await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"encrypt\"]\n  );","  const cryptoKey = KEYS.get(key) ?? await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"encrypt\"]\n  );\n  KEYS.set(key, cryptoKey);"),(cr,"export async function aesGcmEncrypt","const KEYS = new WeakMap<Uint8Array, CryptoKey>();\n\nexport async function aesGcmEncrypt")]),
("m-pub-weak",["C48"],[(zk,"  // Step 1: Validate ciphertext\n","  const known = PUBS.get(ciphertext);\n  if (known) return known;\n  // Step 1: Validate ciphertext\n"),(zk,"    return JSON.parse(publicInputJson);","    const value = JSON.parse(publicInputJson);\n    PUBS.set(ciphertext, value);\n    return value;"),(zk,"// Initialize WASM module\n","const PUBS = new WeakMap<Uint8Array, Record<string, any>>();\n// Initialize WASM module\n")]),
("m-pub-frozen-copy",["C48"],[(zk,"  // Step 1: Validate ciphertext\n","  const known = PUBS.get(ciphertext);\n  if (known) return JSON.parse(known);\n  // Step 1: Validate ciphertext\n"),(zk,"    return JSON.parse(publicInputJson);","    const value = JSON.parse(publicInputJson);\n    PUBS.set(ciphertext, publicInputJson);\n    return value;"),(zk,"// Initialize WASM module\n","const PUBS = new WeakMap<Uint8Array, string>();\n// Initialize WASM module\n")]),
("m-files-weak",["C48"],[(zk,"  const wireMap = parseSymFile(circuitFiles.symContent);\n","  const wireMap = SYMS.get(circuitFiles) ?? parseSymFile(circuitFiles.symContent);\n  SYMS.set(circuitFiles, wireMap);\n"),(zk,"// Initialize WASM module\n","const SYMS = new WeakMap<object, Map<string, number>>();\n// Initialize WASM module\n")]),
("m-opt-default",["C48"],[(zk,"  const { includePublicInput = true } = options;","  options.includePublicInput ??= true;\n  const { includePublicInput } = options;")]),
("m-files-bytes",["C48"],[(zk,"  const result = wasm_encap(circuitFiles.r1csBuffer, witnessBytes);","  circuitFiles.r1csBuffer = new Uint8Array(circuitFiles.r1csBuffer);\n  const result = wasm_encap(circuitFiles.r1csBuffer, witnessBytes);")]),
("m-type-check",["C48"],[(zk,"  // Step 1: Parse combined ciphertext\n","  if (!(ciphertext instanceof Uint8Array)) {\n    throw new Error(\"Invalid ciphertext: expected a Uint8Array\");\n  }\n  // Step 1: Parse combined ciphertext\n")]),
("m-ct-slice-buffer",["C48"],[(zk,"  const encryptedMessage = ciphertext.slice(offset);","  const encryptedMessage = new Uint8Array(ciphertext.buffer.slice(ciphertext.byteOffset + offset));")]),
("m-dec-inplace",["C48"],[(cr,"  const ciphertext = encrypted.slice(12);","  const ciphertext = encrypted.subarray(12);\n  encrypted[0] = encrypted[0] | 0;")]),
("m-dec-nonce-wipe",["C48"],[(cr,"    return new Uint8Array(decrypted);","    nonce.fill(0);\n    return new Uint8Array(decrypted);")]),
("m-empty-alias",["C48"],[(cr,"    return new Uint8Array(decrypted);","    if (decrypted.byteLength === 0) return EMPTY;\n    return new Uint8Array(decrypted);"),(cr,"export async function aesGcmDecrypt","const EMPTY = new Uint8Array(0);\n\nexport async function aesGcmDecrypt")]),
("m-scratch-out",["C48"],[(cr,"    return new Uint8Array(decrypted);","    if (SCRATCH.length < decrypted.byteLength) SCRATCH = new Uint8Array(decrypted.byteLength * 2);\n    SCRATCH.set(new Uint8Array(decrypted));\n    return decrypted.byteLength < 64 ? SCRATCH.subarray(0, decrypted.byteLength) : new Uint8Array(decrypted);"),(cr,"export async function aesGcmDecrypt","let SCRATCH = new Uint8Array(64);\n\nexport async function aesGcmDecrypt")]),
("m-scratch-nonce",["C48"],[(zk,"  const buffer = new ArrayBuffer(totalSize);","  const buffer = totalSize <= SPARE.byteLength ? SPARE.slice(0, totalSize) : new ArrayBuffer(totalSize);"),(zk,"// Initialize WASM module\n","const SPARE = new ArrayBuffer(4096);\n// Initialize WASM module\n")]),
("m-decap-keycopy",["C48"],[(zk,"  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);\n","  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);\n  witnessBytes.fill(0);\n")]),
("m-wasm-detach",["C48"],[(wi,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate","  const own = wasmBuffer instanceof ArrayBuffer || (wasmBuffer as Uint8Array).byteLength !== wasmBuffer.buffer.byteLength ? wasmBuffer : new Uint8Array((wasmBuffer.buffer as any).transfer());\n  const witnessCalculator = await witnessCalculatorBuilder(own as BufferSource);\n\n  // Calculate")]),
("m-inputs-sort",["C48"],[(zk,"    const publicInputJson = JSON.stringify(publicInputs);","    for (const v of Object.values(publicInputs)) if (Array.isArray(v)) v.flat(Infinity);\n    const publicInputJson = JSON.stringify(Object.assign(publicInputs, {}));")]),
("m-clone",["C48"],[(zk,"    const publicInputJson = JSON.stringify(publicInputs);","    const publicInputJson = JSON.stringify(structuredClone(publicInputs));")]),
]
