// Runs the JavaScript binding (libvoikko_api.js) in an emulation of the Emscripten runtime: memory is a byte array, and the
// functions of the library are executed by the parent process (one line out, one line in).  Everything the binding
// allocates, receives and releases is accounted for.
'use strict';
var fs = require('fs');

// ---- channel to the parent
var input = Buffer.alloc(0), chunk = Buffer.alloc(1 << 16);
function readLine() {
	for (;;) {
		var i = input.indexOf(10);
		if (i >= 0) { var l = input.toString('latin1', 0, i); input = input.subarray(i + 1); return l; }
		var n = fs.readSync(0, chunk, 0, chunk.length, null);
		if (n === 0) process.exit(0);
		input = Buffer.concat([input, chunk.subarray(0, n)]);
	}
}
function ascii(o) { return JSON.stringify(o).replace(/[^\x20-\x7e]/g, function(c) { return '\\u' + ('000' + c.charCodeAt(0).toString(16)).slice(-4); }); }
function writeLine(s) {
	var b = Buffer.from(s + '\n', 'latin1'), o = 0;
	while (o < b.length) { try { o += fs.writeSync(1, b, o, b.length - o); } catch (e) { if (e.code !== 'EAGAIN') throw e; } }
}
function native(name, args) { writeLine('C' + ascii([name].concat(args))); return JSON.parse(readLine()); }

// ---- memory
var HEAP = Buffer.alloc(1 << 20), top = 16;
var blocks = new Map();     // start -> {size, kind}
var problem = '';
function breach(s) { if (!problem) problem = s; }
function allocate(size, kind) {
	while (top + size + 64 > HEAP.length) { var h = Buffer.alloc(HEAP.length * 2); HEAP.copy(h); HEAP = h; }
	var p = top;
	top = (top + size + 31) & ~7;
	HEAP.fill(0xA5, p, top);
	blocks.set(p, {size: size, kind: kind});
	return p;
}
function release(p, kind, fn) {
	if (p === 0) return;
	var b = blocks.get(p);
	if (!b) return breach(fn + ' called with something that is not allocated');
	if (b.kind !== kind) return breach(fn + ' called for ' + b.kind);
	HEAP.fill(0x5A, p, p + b.size);
	blocks.delete(p);
	if (b.parts) b.parts.forEach(function(x) { HEAP.fill(0x5A, x, x + blocks.get(x).size); blocks.delete(x); });
}
// is the range inside of one allocated block?
function inside(p, n) {
	for (var e of blocks) if (p >= e[0] && p + n <= e[0] + e[1].size) return true;
	return false;
}
function touch(p, n, what) { if (!inside(p, n)) { breach(what + ' outside of allocated memory'); return false; } return true; }
function _malloc(n) { return allocate(n, 'malloc'); }
function _free(p) { release(p, 'malloc', '_free'); }

// ---- runtime functions with the behaviour of Emscripten's
function getValue(p, type) {
	if (type === 'i8') return touch(p, 1, 'getValue') ? HEAP.readInt8(p) : 0;
	return touch(p, 4, 'getValue') ? HEAP.readInt32LE(p) : 0;
}
function setValue(p, v, type) { if (touch(p, 4, 'setValue')) HEAP.writeInt32LE(v, p); }
function UTF8ToString(p, max) {
	if (!p) return '';
	var e = p;
	while (touch(e, 1, 'UTF8ToString') && HEAP[e] !== 0 && (max === undefined || e < p + max)) e++;
	return HEAP.toString('utf8', p, e);
}
function lengthBytesUTF8(s) {
	var len = 0;
	for (var i = 0; i < s.length; ++i) {
		var c = s.charCodeAt(i);
		if (c <= 0x7F) len++;
		else if (c <= 0x7FF) len += 2;
		else if (c >= 0xD800 && c <= 0xDFFF) { len += 4; ++i; }
		else len += 3;
	}
	return len;
}
function stringToUTF8(s, p, max) {
	if (!(max > 0)) return 0;
	var b = Buffer.from(s, 'utf8').subarray(0, max - 1);
	if (!touch(p, b.length + 1, 'stringToUTF8')) return 0;
	b.copy(HEAP, p);
	HEAP[p + b.length] = 0;
	return b.length;
}

// ---- the library
function string(s, kind) {
	var b = Buffer.from(s, 'utf8'), p = allocate(b.length + 1, kind);
	b.copy(HEAP, p);
	HEAP[p + b.length] = 0;
	return p;
}
function array(l, kind) {
	if (l === null) return 0;
	var parts = l.map(function(s) { return string(s, 'part'); });
	var p = allocate(4 * (l.length + 1), kind);
	parts.forEach(function(x, i) { HEAP.writeInt32LE(x, p + 4 * i); });
	HEAP.writeInt32LE(0, p + 4 * l.length);
	blocks.get(p).parts = parts;
	return p;
}
var handles = new Map(), things = new Map();
function check(h, fn) { if (!handles.has(h)) { breach(fn + ' called with a handle that is not open'); throw new Error('bad handle'); } return handles.get(h); }
function bytes(p, n) { if (!touch(p, n, 'text')) return ''; return HEAP.toString('latin1', p, p + n); }
function latin(s) { return s === null ? null : Buffer.from(s, 'utf8').toString('latin1'); }
// arguments declared 'string' arrive as JavaScript strings (null for null), 'number' as pointers
var api = {
	voikkoInit: function(e, l, p) {
		var r = native('init', [latin(l), latin(p)]);
		if (typeof r === 'string') { if (e) setValue(e, string(r, 'static')); return 0; }
		if (e) setValue(e, 0);
		var h = allocate(8, 'handle');
		handles.set(h, r);
		return h;
	},
	voikkoTerminate: function(h) { native('terminate', [check(h, 'voikkoTerminate')]); handles.delete(h); release(h, 'handle', 'voikkoTerminate'); },
	voikkoSetBooleanOption: function(h, o, v) { return native('bool', [check(h, 'voikkoSetBooleanOption'), o, v]); },
	voikkoSetIntegerOption: function(h, o, v) { return native('int', [check(h, 'voikkoSetIntegerOption'), o, v]); },
	voikkoSpellCstr: function(h, w) { return native('spell', [check(h, 'voikkoSpellCstr'), latin(w)]); },
	voikkoSuggestCstr: function(h, w) { return array(native('suggest', [check(h, 'voikkoSuggestCstr'), latin(w)]), 'array'); },
	voikkoGetAttributeValues: function(h, n) { return array(native('attributes', [check(h, 'voikkoGetAttributeValues'), latin(n)]), 'array'); },
	voikkoFreeCstrArray: function(p) { release(p, 'array', 'voikkoFreeCstrArray'); },
	voikkoHyphenateCstr: function(h, w) { var r = native('pattern', [check(h, 'voikkoHyphenateCstr'), latin(w)]); return r === null ? 0 : string(r, 'string'); },
	voikkoInsertHyphensCstr: function(h, w, s, c) { var r = native('hyphenate', [check(h, 'voikkoInsertHyphensCstr'), latin(w), latin(s), c]); return r === null ? 0 : string(r, 'string'); },
	voikkoFreeCstr: function(p) { release(p, 'string', 'voikkoFreeCstr'); },
	voikkoNextTokenCstr: function(h, t, n, r) { var a = native('token', [check(h, 'voikkoNextTokenCstr'), bytes(t, n)]); if (a[1] !== null) setValue(r, a[1]); return a[0]; },
	voikkoNextSentenceStartCstr: function(h, t, n, r) { var a = native('sentence', [check(h, 'voikkoNextSentenceStartCstr'), bytes(t, n)]); if (a[1] !== null) setValue(r, a[1]); return a[0]; },
	voikkoNextGrammarErrorCstr: function(h, t, n, s, k) {
		var b = typeof t === 'number' ? bytes(t, n) : latin(t);
		if (n > b.length) breach('length of the text is too large');
		var a = native('error', [check(h, 'voikkoNextGrammarErrorCstr'), b.substring(0, n), s, k]);
		if (a === null) return 0;
		var p = allocate(8, 'error');
		a.suggestions = a.suggestions === null ? 0 : array(a.suggestions, 'part');
		blocks.get(p).parts = a.suggestions ? [a.suggestions].concat(blocks.get(a.suggestions).parts) : [];
		things.set(p, a);
		return p;
	},
	voikkoGetGrammarErrorCode: function(e) { return error(e).code; },
	voikkoGetGrammarErrorStartPos: function(e) { return error(e).start; },
	voikkoGetGrammarErrorLength: function(e) { return error(e).length; },
	voikkoGetGrammarErrorSuggestions: function(e) { return error(e).suggestions; },
	voikkoFreeGrammarError: function(e) { if (blocks.has(e) && things.has(e)) native('freeerror', [things.get(e).id]); release(e, 'error', 'voikkoFreeGrammarError'); things.delete(e); },
	voikkoGetGrammarErrorShortDescription: function(e, l) { var x = error(e); return string(x.id === undefined ? '' : native('describe', [x.id, latin(l)]), 'message'); },
	voikkoFreeErrorMessageCstr: function(p) { release(p, 'message', 'voikkoFreeErrorMessageCstr'); },
	voikkoAnalyzeWordCstr: function(h, w) {
		var a = native('analyze', [check(h, 'voikkoAnalyzeWordCstr'), latin(w)]);
		if (a === null) return 0;
		var parts = [], p = allocate(4 * (a.length + 1), 'analysis');
		a.forEach(function(x, i) {
			var q = allocate(8, 'part'), k = array(x.map(function(y) { return y[0]; }), 'part');
			parts.push(q, k);
			parts = parts.concat(blocks.get(k).parts);
			things.set(q, {keys: k, values: new Map(x)});
			HEAP.writeInt32LE(q, p + 4 * i);
		});
		HEAP.writeInt32LE(0, p + 4 * a.length);
		blocks.get(p).parts = parts;
		return p;
	},
	voikko_mor_analysis_keys: function(a) { if (!blocks.has(a)) { breach('keys of a released analysis'); return 0; } return things.get(a).keys; },
	voikko_mor_analysis_value_cstr: function(a, k) {
		if (!blocks.has(a)) { breach('value of a released analysis'); return 0; }
		var v = things.get(a).values.get(typeof k === 'number' ? UTF8ToString(k) : k);
		return v === undefined ? 0 : string(v, 'value');
	},
	voikko_free_mor_analysis_value_cstr: function(p) { release(p, 'value', 'voikko_free_mor_analysis_value_cstr'); },
	voikko_free_mor_analysis: function(p) { release(p, 'analysis', 'voikko_free_mor_analysis'); },
	voikkoGetVersion: function() { return string('0', 'static'); }
};
function error(e) { if (!blocks.has(e)) { breach('a released grammar error is used'); return {code: 0, start: 0, length: 0, suggestions: 0}; } return things.get(e); }
function cwrap(name, ret, types) {
	var f = api[name];
	if (!f) throw new Error('unknown function ' + name);
	return function() {
		var args = [];
		for (var i = 0; i < types.length; i++) {
			var v = arguments[i];
			if (types[i] === 'string') args.push(v === null || v === undefined || v === 0 ? null : v.indexOf('\0') < 0 ? v : v.substring(0, v.indexOf('\0')));
			else args.push(typeof v === 'number' ? v : v === true ? 1 : 0);
		}
		var r = f.apply(null, args);
		return ret === 'string' ? UTF8ToString(r) : ret === 'boolean' ? !!r : r;
	};
}

var Module = {};
function ccall(name, ret, types, args) { return cwrap(name, ret, types).apply(null, args || []); }
function stringToNewUTF8(s) { var n = lengthBytesUTF8(s) + 1, p = _malloc(n); stringToUTF8(s, p, n); return p; }
(new Function('Module', 'ccall', 'stringToNewUTF8', 'allocateUTF8', 'cwrap', 'getValue', 'setValue', 'UTF8ToString', 'lengthBytesUTF8', 'stringToUTF8', '_malloc', '_free', fs.readFileSync(process.argv[2], 'utf8')))(
	Module, ccall, stringToNewUTF8, stringToNewUTF8, cwrap, getValue, setValue, UTF8ToString, lengthBytesUTF8, stringToUTF8, _malloc, _free);

// ---- operations
var objects = {};
function run(op) {
	var v = objects[op[1]];
	switch (op[0]) {
		case 'open': objects[op[1]] = Module['init'](op[2], op[3]); return true;
		case 'forget': delete objects[op[1]]; return true;
		case 'terminate': v['terminate'](); return true;
		case 'spell': return v['spell'](op[2]);
		case 'suggest': return v['suggest'](op[2]);
		case 'analyze': return v['analyze'](op[2]);
		case 'pattern': return v['getHyphenationPattern'](op[2]);
		case 'hyphenate': return op[3] === '-' && op[4] ? v['hyphenate'](op[2]) : v['hyphenate'](op[2], op[3], op[4]);
		case 'tokens': return v['tokens'](op[2]).map(function(t) { return [t['text'], t['type']]; });
		case 'sentences': return v['sentences'](op[2]).map(function(s) { return [s['text'], s['nextStartType']]; });
		case 'grammar': return v['grammarErrors'](op[2], op[3]).map(function(e) { return [e['errorCode'], e['startPos'], e['errorLen'], e['shortDescription'], e['suggestions']]; });
		case 'attributes': return v['attributeValues'](op[2]);
		case 'bool': case 'int': v['set' + op[2]](op[3]); return true;
		case 'strategy': v['setSuggestionStrategy'](op[2]); return true;
		case 'account': {
			var kinds = [];
			blocks.forEach(function(b) { if (b.kind !== 'handle' && b.kind !== 'static') kinds.push(b.kind); });
			if (kinds.length === 0 && handles.size === 0) { blocks.clear(); things.clear(); top = 16; }
			return [problem, kinds.length, handles.size, kinds.join(' ')];
		}
	}
	throw new Error('unknown operation');
}
for (;;) {
	var op = JSON.parse(readLine()), r;
	try { r = run(op); } catch (e) { r = {exception: typeof e === 'string' ? e : 'Error: ' + e.message}; }
	writeLine('R' + ascii(r === undefined ? {exception: 'undefined'} : r));
}
