"""
property: C39
needs: a data chunk which is delivered twice (for example a MIDI loop)
breaks: the chunk is appended twice and a changed file arrives
@@ web/htdocs/lib/jsmidibridge/JsMidiBridge.js
<<<<
        if (index != transmission.lastChunk + 1) {			
====
        if (index > transmission.lastChunk + 1) {			
>>>>
"""
import subprocess, sys
JS = r'''
const fs = require("fs");
eval(fs.readFileSync("web/htdocs/lib/jsmidibridge/JsMidiBridge.js", "utf8") + ";globalThis.J = JsMidiBridge");
(async () => {
    const a = new J(), b = new J(), q = [], got = [];
    a.sendSysex = async (m, d) => { q.push([b, m, d]) };
    b.sendSysex = async (m, d) => { q.push([a, m, d]) };
    a.onError = b.onError = async () => {};
    b.onReceiveFinish = async (d) => { got.push(d.data) };
    await a.sendString("/a", "0123456789", 3);
    let n = 0;
    while (q.length && n++ < 100) {
        const [o, m, d] = q.shift();
        await o.receive({ manufacturerId: m, data: d });
        if (n == 2) await o.receive({ manufacturerId: m, data: d });
    }
    console.log(JSON.stringify(got));
    process.exit(got.some(x => x != "0123456789") ? 1 : 0);
})();
'''
r = subprocess.run(["node", "-e", JS], capture_output=True, text=True, timeout=60)
print(r.stdout, r.stderr[-500:])
if r.returncode:
    print("FAIL a changed file arrived")
    sys.exit(1)
