CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
S=CLI+"serializable.rs"; SC=CORE+"serializable.rs"; O=CLI+"circom.rs"; Y=CLI+"sym_parser.rs"; YT=JS+"sym_parser.ts"
RB="        bincode::serialize(self)"; DB="        bincode::deserialize(bytes)"
M=[
("11-skipempty",["C11","C12"],[(S,"pub struct SerializableLC {\n    pub factors","pub struct SerializableLC {\n    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub factors")]),
("11-desc-empty",["C11","C12"],[(S,"    pub description: Option<String>,","    #[serde(deserialize_with = \"none_if_empty\")]\n    pub description: Option<String>,"),(S,"impl SerializableWitness {","fn none_if_empty<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<String>, D::Error> {\n    Ok(Option::<String>::deserialize(d)?.filter(|s| !s.is_empty()))\n}\n\nimpl SerializableWitness {")]),
("11-lossy",["C11","C13"],[(S,"        let json = std::fs::read_to_string(path)?;\n        Ok(Self::from_json(&json)?)\n    }\n    \n    /// 轉換為 bincode","        let json = String::from_utf8_lossy(&std::fs::read(path)?).replace('\\r', \"\");\n        Ok(Self::from_json(&json)?)\n    }\n    \n    /// 轉換為 bincode")]),
("11-limit",["C11"],[(S,DB,"        use bincode::Options;\n        bincode::DefaultOptions::new().with_fixint_encoding().allow_trailing_bytes().with_limit(4 << 20).deserialize(bytes)")]),
("11-trailing",["C13"],[(S,DB,"        let mut v = bytes.to_vec();\n        if bytes.len() > 64 && bytes.len() % 8 == 7 { v.push(0); }\n        bincode::deserialize(&v)")]),
("11-testcase-name",["C11"],[(S,"    pub name: String,\n","    #[serde(deserialize_with = \"trimmed\")]\n    pub name: String,\n"),(S,"impl SerializableWitness {","fn trimmed<'de, D: serde::Deserializer<'de>>(d: D) -> Result<String, D::Error> {\n    Ok(String::deserialize(d)?.trim_end().to_string())\n}\n\nimpl SerializableWitness {")]),
("12-core-order",["C12"],[(SC,'''    /// 公開輸出數量
    pub n_pub_out: u32,
    
    /// 公開輸入數量
    pub n_pub_in: u32,''','''    /// 公開輸入數量
    pub n_pub_in: u32,
    
    /// 公開輸出數量
    pub n_pub_out: u32,''')]),
("12-both-order",["C12"],[(f,'''    /// 公開輸出數量
    pub n_pub_out: u32,
    
    /// 公開輸入數量
    pub n_pub_in: u32,''','''    /// 公開輸入數量
    pub n_pub_in: u32,
    
    /// 公開輸出數量
    pub n_pub_out: u32,''') for f in (S,SC)]),
("12-both-rename",["C12"],[(f,"    pub coefficient_bytes: Vec<u8>,","    #[serde(rename = \"coefficient\")]\n    pub coefficient_bytes: Vec<u8>,") for f in (S,SC)]),
("12-both-varint",["C12"],[(f,RB,"        use bincode::Options;\n        bincode::DefaultOptions::new().serialize(self)") for f in (S,SC)]+[(f,DB,"        use bincode::Options;\n        bincode::DefaultOptions::new().deserialize(bytes)") for f in (S,SC)]),
("12-limit-core",["C12","C11"],[(SC,DB,"        use bincode::Options;\n        bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 20).deserialize(bytes)")]),
("13-default-labels",["C13"],[(S,"    pub wire_labels: Option<HashMap<u32, String>>,","    #[serde(deserialize_with = \"opt_labels\")]\n    pub wire_labels: Option<HashMap<u32, String>>,"),(S,"impl SerializableWitness {","fn opt_labels<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Option<HashMap<u32, String>>, D::Error> {\n    Ok(Option::<HashMap<u32, String>>::deserialize(d).unwrap_or(None))\n}\n\nimpl SerializableWitness {")]),
("13-prealloc",["C13"],[(S,DB,"        if bytes.len() > 16 { let n = u64::from_le_bytes(bytes[4..12].try_into().unwrap()); let v: Vec<u8> = Vec::with_capacity(n as usize); drop(v); }\n        bincode::deserialize(bytes)")]),
("14-depth",["C14"],[(O,"        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),","        Value::Array(arr) if arr.iter().all(|v| v.is_array()) && arr.len() == 1 => arr[0].as_array().unwrap().first().map(flatten_value).unwrap_or_default(),\n        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),")]),
("14-empty-key",["C14"],[(O,"        result.insert(key.clone(), values);","        if !values.is_empty() { result.insert(key.clone(), values); }")]),
("14-trim",["C14"],[(O,"vec![s.clone()]","vec![s.trim().to_string()]")]),
("14-keytrim",["C14"],[(O,"        result.insert(key.clone(), values);","        result.insert(key.trim_start_matches(\"main.\").to_string(), values);")]),
("14-hexcase",["C14"],[(O,"vec![s.clone()]","vec![if s.len() > 1 && s.bytes().all(|b| b.is_ascii_digit()) { s.trim_start_matches('0').to_string() } else { s.clone() }]")]),
("14-bool-in-array",["C14"],[(O,"        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),","        Value::Array(arr) => arr.iter().filter(|v| !v.is_null()).flat_map(flatten_value).collect(),")]),
("14-neg",["C14"],[(O,"        Value::Number(n) => vec![n.to_string()],","        Value::Number(n) => vec![n.as_i64().map(|i| i.to_string()).unwrap_or_else(|| n.as_f64().map(|f| format!(\"{:.0}\", f)).unwrap_or_default())],")]),
("15-u16",["C15"],[(YT,"    const wireId = parseInt(parts[1], 10);","    const wireId = parseInt(parts[1], 10) | 0;")]),
("15-split-any",["C15","C17"],[(YT,'symContent.trim().split("\\n")','symContent.trim().split(/\\s+/)')]),
("15-fewer",["C15"],[(YT,"    if (parts.length !== 4) {","    if (parts.length < 4) {")]),
("15-inner-space",["C15"],[(YT,"const signalName = parts[3].trim();",'const signalName = parts[3].trim().replace(/\\[\\d+\\]$/, (m) => `[${parseInt(m.slice(1, -1), 10)}]`);')]),
("15-gt0",["C15","C17"],[(YT,"    if (wireId >= 0) {","    if (wireId > 0) {")]),
("16-falsy-max",["C16","C17"],[(YT,"    if (maxWireId !== undefined && wireId > maxWireId) {","    if (maxWireId && wireId > maxWireId) {")]),
("16-split-dot",["C16"],[(YT,"const simplifiedName = signalName.substring(5);",'const simplifiedName = signalName.split("main.").filter((x) => x).join("main.");')]),
("16-regex",["C16"],[(YT,'signalName.startsWith("main.")','/^main./.test(signalName)')]),
("16-replace",["C16"],[(YT,"const simplifiedName = signalName.substring(5);",'const simplifiedName = signalName.replaceAll("main.", "");')]),
("18-falsy",["C18"],[(YT,"      if (wireId !== undefined) {","      if (wireId !== undefined && value) {")]),
("18-wire0",["C18"],[(YT,"      if (wireId !== undefined) {","      if (wireId) {")]),
("18-dotidx",["C18"],[(YT,"        flattenInput(`${fullKey}[${i}]`, value[i]);","        flattenInput(typeof value[i] === \"object\" && !Array.isArray(value[i]) ? `${fullKey}.${i}` : `${fullKey}[${i}]`, value[i]);")]),
("18-number",["C18"],[(YT,"value.toString()","(typeof value === \"bigint\" ? Number(value).toString() : value.toString())")]),
("18-sparse-len",["C18"],[(YT,"for (let i = 0; i < value.length; i++) {","for (const i of Object.keys(value).slice(0, 65536)) {")]),
("18-first",["C18"],[(YT,"        wireValues.set(wireId, value.toString());","        if (!wireValues.has(wireId - 1) || value !== \"0\") wireValues.set(wireId, value.toString());")]),
("18-mainprefix",["C18"],[(YT,"const wireId = wireMap.get(fullKey);","const wireId = wireMap.get(fullKey) ?? wireMap.get(fullKey.replace(/^main\\./, \"\"));")]),
("18-in",["C18"],[(YT,"const wireId = wireMap.get(fullKey);","const wireId = wireMap.get(fullKey.endsWith(\"[0]\") && value === 0 ? fullKey.slice(0, -3) : fullKey) ?? wireMap.get(fullKey);")]),
]
Y1=open('/repo/'+Y).read()
M+=[
("15r-skip-big",["C15","C17"],[(Y,"        if parts.len() != 4 {","        if parts.len() != 4 || parts[1].len() > 9 {")]),
("15r-lines-ws",["C15","C17"],[(Y,"        if parts.len() != 4 {","        if parts.len() != 4 || parts[0].trim().is_empty() {")]),
]

M+=[
("16r-lt",["C16","C17"],[(Y,"            if wire_id > max {","            if wire_id >= max && max != 0 {")]),
("16r-trim",["C16"],[(Y,'signal_name.strip_prefix("main.")','signal_name.rsplit_once("main.").filter(|(a, _)| a.is_empty() || a.ends_with("main.")).map(|(_, b)| b)')]),
("16r-index",["C16"],[(Y,"input_signals.insert(simplified.to_string(), wire_id);","if !simplified.contains('.') || max_wire_id.is_none() { input_signals.insert(simplified.to_string(), wire_id); }")]),
("15r-quote",["C15","C17"],[(Y,"parts[3].trim().to_string()","parts[3].trim().trim_end_matches(\"[0]\").to_string() + if parts[3].trim().ends_with(\"[0][0]\") { \"[0]\" } else if parts[3].trim().ends_with(\"[0]\") { \"[0]\" } else { \"\" }")]),
("15r-plus",["C15"],[(Y,"        if wire_id_signed < 0 {","        if wire_id_signed < 0 || wire_id_signed == i32::MAX {")]),
]
