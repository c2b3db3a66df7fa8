// Dumps the syntax tree of JavaScript files as JSON (TypeScript is used as a parser only, nothing is executed).
const ts = require(process.argv[2]);
const fs = require("fs");
const skip = new Set(["parent", "pos", "end", "flags", "modifierFlagsCache", "transformFlags", "id", "jsDoc", "emitNode", "symbol", "locals",
                      "localSymbol", "flowNode", "endFlowNode", "nextContainer", "original", "jsDocCache", "facts"]);
function conv(sf, n) {
    const o = { k: ts.SyntaxKind[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1 };
    if (n.kind == ts.SyntaxKind.VariableDeclarationList) o.let = true;
    if (typeof n.text == "string") o.text = n.text;
    for (const key of Object.keys(n)) {
        if (skip.has(key) || key == "text" || key == "kind") continue;
        const v = n[key];
        if (v === null || v === undefined) continue;
        if (Array.isArray(v)) { o[key] = v.filter(x => x && x.kind !== undefined).map(x => conv(sf, x)); continue; }
        if (typeof v == "object" && v.kind !== undefined && v.pos !== undefined) { o[key] = conv(sf, v); continue; }
        if (key == "operator") o.op = ts.SyntaxKind[v];
    }
    return o;
}
const out = {};
for (const path of process.argv.slice(3)) {
    const sf = ts.createSourceFile(path, fs.readFileSync(path, "utf8"), ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    out[path] = { errors: sf.parseDiagnostics.length, body: sf.statements.map(s => conv(sf, s)) };
}
process.stdout.write(JSON.stringify(out));
