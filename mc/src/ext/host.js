// A browser with a NetsBlox editor, as far as the extension sees one. One line of json in (a scenario), one line out (what was seen).
'use strict';
const vm = require('vm');

// ---------------------------------------------------------------- documents
class Node_ {
    constructor(tag, attrs) { this.tagName = this.nodeName = this.localName = tag; this.attrs = attrs; this.childNodes = []; this.parentNode = null; this.nodeType = tag === null ? 3 : tag === '#document' ? 9 : 1; this.text = null; }
    get children() { return this.childNodes.filter(x => x.nodeType === 1); }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    get documentElement() { return this.children[0] || null; }
    get firstChild() { return this.childNodes[0] || null; }
    get textContent() { return this.nodeType === 3 ? this.text : this.childNodes.map(x => x.textContent).join(''); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    removeChild(x) { const i = this.childNodes.indexOf(x); if (i < 0) throw Error('NotFoundError'); this.childNodes.splice(i, 1); x.parentNode = null; return x; }
    *walk() { for (const c of this.childNodes) { if (c.nodeType === 1) { yield c; yield* c.walk(); } } }
    found(names) { return [...this.walk()].filter(x => names.includes('*') || names.includes(x.tagName)); }
    /// live, as in a browser
    getElementsByTagName(name) {
        const root = this;
        const now = () => root.found([name]);
        return new Proxy({}, { get(_, k) {
            if (k === Symbol.iterator) return function* () { for (let i = 0; i < now().length; i++) yield now()[i]; };
            if (k === 'length') return now().length;
            if (k === 'item') return i => now()[i] || null;
            if (typeof k === 'string' && /^\d+$/.test(k)) return now()[+k];
            return undefined;
        }, has(_, k) { return k === 'length' || /^\d+$/.test(String(k)) && +k < now().length; } });
    }
    querySelectorAll(sel) { return this.found(sel.split(',').map(x => x.trim())); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    write() { return this.nodeType === 3 ? this.text : this.nodeType === 9 ? this.childNodes.map(x => x.write()).join('') : `<${this.tagName}${this.attrs}>${this.childNodes.map(x => x.write()).join('')}</${this.tagName}>`; }
    get outerHTML() { return this.write(); }
}
function parse(xml) {
    const doc = new Node_('#document', '');
    let at = doc;
    const re = /<(\/?)([a-zA-Z][\w-]*)((?:\s+[\w-]+="[^"]*")*)>|([^<]+)/y;
    let m;
    re.lastIndex = 0;
    while (re.lastIndex < xml.length && (m = re.exec(xml))) {
        if (m[4] !== undefined) { const t = new Node_(null, ''); t.text = m[4]; t.parentNode = at; at.childNodes.push(t); }
        else if (m[1]) { if (at.tagName !== m[2]) throw Error('HARNESS: xml'); at = at.parentNode; }
        else { const e = new Node_(m[2], m[3]); e.parentNode = at; at.childNodes.push(e); at = e; }
    }
    if (at !== doc) throw Error('HARNESS: xml ' + xml);
    return doc;
}

function run(sc) {
    const seen = { requests: [], alerts: [], dropped: [], opened: [], notes: [], registered: 0, hidden: null };
    // ------------------------------------------------------------ time and requests
    let now = 0, timers = [], seq = 0;
    const setTimeout_ = (f, ms = 0, ...args) => { timers.push({ at: now + Math.max(0, +ms || 0), seq: ++seq, f, args }); return seq; };
    const clearTimeout_ = id => { timers = timers.filter(x => x.seq !== id); };
    const advance = ms => {
        const end = now + ms;
        for (;;) {
            const due = timers.filter(x => x.at <= end).sort((a, b) => a.at - b.at || a.seq - b.seq)[0];
            if (!due) break;
            timers.splice(timers.indexOf(due), 1);
            now = due.at;
            due.f(...due.args);
        }
        now = end;
    };
    const open = [];
    class XMLHttpRequest {
        static get DONE() { return 4; }
        get DONE() { return 4; }
        constructor() { this.readyState = 0; this.status = 0; this.responseText = ''; this.onreadystatechange = null; }
        open(method, url, async) { this.method = method; this.url = url; this.async = async; this.state(1); }
        setRequestHeader() {}
        send(body) { seen.requests.push([this.method, this.url, body === undefined || body === null ? null : String(body), now]); open.push(this); this.state(1); }
        state(n) { this.readyState = n; if (this.onreadystatechange) this.onreadystatechange({ target: this }); if (n === 4 && this.onload) this.onload({ target: this }); }
        answer(status, text) { this.status = status; this.state(2); this.responseText = text; this.state(3); this.state(4); }
    }
    // ------------------------------------------------------------ morphs
    const made = { buttons: [], texts: [], comments: [] };
    class Morph {
        constructor() { this.bounds = { setWidth() {}, setHeight() {} }; this.children = []; this.alpha = 1; this.parent = null; this.contents_ = null; }
        init() { if (!this.bounds) this.bounds = { setWidth() {}, setHeight() {} }; this.children = []; }
        add(x) { this.children.push(x); if (x) x.parent = this; }
        addContents(x) { this.add(x); }
        bottom() { return 0; } left() { return 0; } right() { return 0; } top() { return 0; } center() { return new Point(0, 0); } width() { return 0; } height() { return 0; } corner() { return new Point(0, 0); }
        setBottom() {} setLeft() {} setRight() {} setTop() {} setCenter() {} setWidth() {} setHeight() {} setExtent() {} setPosition() {}
        changed() {} rerender() {} fixLayout() {} createLabel() {} align() {}
        show() { this.isVisible = true; } hide() { this.isVisible = false; } popUp() { this.isVisible = true; this.poppedUp = true; }
        destroy() { this.isDestroyed = true; }
        fullCopy() { return this; }
    }
    class Point { constructor(x, y) { this.x = x; this.y = y; } }
    class Color { constructor(r, g, b) { this.r = r; this.g = g; this.b = b; } }
    // (a constructor that may be called with call, as the editor's are)
    function DialogBoxMorph() { this.init(); }
    DialogBoxMorph.prototype = new Morph();
    DialogBoxMorph.prototype.constructor = DialogBoxMorph;
    class HandleMorph extends Morph {}
    class ScrollFrameMorph extends Morph { constructor() { super(); this.contents = new Morph(); } }
    class TextMorph extends Morph { constructor(t) { super(); this.text = t; made.texts.push(this); } }
    class AlignmentMorph extends Morph {}
    class SymbolMorph extends Morph { constructor(name) { super(); this.name = name; } }
    class PushButtonMorph extends Morph { constructor(target, action, label) { super(); this.target = target; this.action = action; this.labelString = label; this.label = label instanceof Morph ? label : new Morph(); made.buttons.push(this); } }
    class CommentMorph extends Morph {
        constructor(c) { super(); this.said = c; this.titleBar = new Morph(); this.contents = new TextMorph(c); made.texts.pop(); this.block = null; made.comments.push(this); }
        destroy() { if (this.block && this.block.comment === this) this.block.comment = null; this.isDestroyed = true; }
    }
    class InputSlotMorph extends Morph { constructor(text, numeric, choices, readonly) { super(); this.text = text; this.numeric = numeric; this.choices = choices; this.isReadOnly = readonly; } }
    class SpriteMorph extends Morph {}
    class StageMorph extends Morph {}
    class Extension { constructor(name) { this.name = name; } }
    Extension.Category = class { constructor(name, color) { this.name = name; this.color = color; } };
    Extension.Palette = class {};
    Extension.Palette.Block = class { constructor(name) { this.name = name; } };
    Extension.PaletteCategory = class { constructor(name, blocks, owner) { this.name = name; this.blocks = blocks; this.owner = owner; } };
    Extension.Block = class { constructor(name, type, category, spec, defaults, fn) { Object.assign(this, { name, type, category, spec, defaults, fn }); } };
    Extension.LabelPart = class { constructor(name, make) { this.name = name; this.make = make; } };
    // ------------------------------------------------------------ the project in the editor
    const blocks = {};
    const block = (id, ...children) => { const b = new Morph(); b.id = id; b.children = children; b.comment = null; b.align = () => {}; if (id) (blocks[id] || (blocks[id] = [])).push(b); return b; };
    const world = new Morph();
    world.children = [block(null, block('b1', block('b2')), block('b3'))];
    const custom = b => ({ body: { expression: b } });
    const stage = new StageMorph();
    stage.globalBlocks = [custom(block('g1', block('g2')))];
    stage.customBlocks = [custom(block('s1'))];
    const sprite = new SpriteMorph();
    sprite.customBlocks = [custom(block('c1', block('c2'))), custom(block('b3'))];
    const ide = { stage, sprites: { contents: [sprite] }, getSerializedRole: () => sc.project || '<p></p>', droppedText: x => seen.dropped.push(x) };
    let ext = null;
    const NetsBloxExtensions = { register(C) { seen.registered += 1; ext = new C(ide); } };
    const quiet = { log() {}, warn() {}, error() {}, info() {}, debug() {} };
    const window_ = { open(url, where) { seen.opened.push([url, where]); } };
    const alert_ = (...x) => { seen.alerts.push(x.map(String)); };
    const names = { setTimeout: setTimeout_, clearTimeout: clearTimeout_, XMLHttpRequest, Morph, Point, Color, DialogBoxMorph, HandleMorph, ScrollFrameMorph, TextMorph, AlignmentMorph, SymbolMorph, PushButtonMorph, CommentMorph, InputSlotMorph, SpriteMorph, StageMorph, Extension, NetsBloxExtensions, world, window: window_, alert: alert_, console: quiet,
        DOMParser: class { parseFromString(x) { return parse(x); } }, XMLSerializer: class { serializeToString(x) { return x.write(); } } };
    script(sc.source)(...ORDER.map(k => { if (!(k in names)) throw Error('HARNESS: ' + k); return names[k]; }));
    if (!ext) return { seen, looks: [] };
    const kind = b => { const l = b.labelString; return l instanceof SymbolMorph ? l.name : String(l); };
    const button = k => made.buttons.filter(b => k === 'pause' ? ['$', 'pause', 'pointRight'].includes(kind(b)) : kind(b) === k);
    const big = x => x.split('@').map((p, i) => i === 0 ? p : 'y'.repeat(parseInt(p, 10)) + p.replace(/^\d+;?/, '')).join('');
    const look = () => {
        const t = made.texts[0] ? made.texts[0].text : null;
        const c = {};
        for (const id of Object.keys(blocks)) c[id] = blocks[id].map(b => b.comment ? b.comment.said : null);
        return { text: t === null ? null : [t.length, t.slice(0, 12), t.slice(-40)], sign: made.buttons.length ? kind(button('pause')[0]) : null, comments: c, requests: seen.requests.length };
    };
    const looks = [];
    for (const op of sc.ops) {
        if (op[0] === 'open') { const m = ext.getMenu(); m[Object.keys(m)[0]](); }
        else if (op[0] === 'advance') advance(op[1]);
        else if (op[0] === 'click') { const b = button(op[1]); if (b.length !== 1) { seen.notes.push(`${b.length} buttons ${op[1]}`); } for (const x of b) x.action.call(x.target); }
        else if (op[0] === 'answer') { const i = open.findIndex(r => r.url.endsWith(op[1])); if (i >= 0) { const [r] = open.splice(i, 1); r.answer(op[2], typeof op[3] === 'string' ? op[3] : JSON.stringify({ ...op[3], output: big(op[3].output) })); } else seen.notes.push('no request ' + op[1]); }
        else throw Error('HARNESS: op');
        looks.push(look());
    }
    const menu = x => x !== null && typeof x === 'object' ? Object.entries(x).map(([k, v]) => [k, menu(v)]) : x;
    const slot = ext.getLabelParts().map(p => { const s = p.make(); return [p.name, menu(s.choices), s.isReadOnly, s.numeric]; });
    const fails = b => { try { b.fn(); return false; } catch (_) { return true; } };
    return { seen, looks, slot, blocks: ext.getBlocks().map(b => [b.name, b.type, b.spec, fails(b)]), palette: ext.getPalette().map(p => [p.owner === SpriteMorph ? 'sprite' : p.owner === StageMorph ? 'stage' : '?', p.blocks.map(b => b.name)]) };
}
const ORDER = ['setTimeout', 'clearTimeout', 'XMLHttpRequest', 'Morph', 'Point', 'Color', 'DialogBoxMorph', 'HandleMorph', 'ScrollFrameMorph', 'TextMorph', 'AlignmentMorph', 'SymbolMorph', 'PushButtonMorph', 'CommentMorph', 'InputSlotMorph', 'SpriteMorph', 'StageMorph', 'Extension', 'NetsBloxExtensions', 'world', 'window', 'alert', 'console', 'DOMParser', 'XMLSerializer'];
let last = [null, null];
function script(source) {
    if (last[0] !== source) last = [source, new Function(...ORDER, source)];
    return last[1];
}
let buf = '';
process.stdin.setEncoding('utf8');
process.stdin.on('data', d => {
    buf += d;
    let i;
    while ((i = buf.indexOf('\n')) >= 0) {
        const line = buf.slice(0, i);
        buf = buf.slice(i + 1);
        let out;
        try { out = run(JSON.parse(line)); } catch (e) { out = { threw: String(e && e.stack || e) }; }
        process.stdout.write(JSON.stringify(out) + '\n');
    }
});
