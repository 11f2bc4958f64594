// Deterministic simulation of the JavaScript part: the JSON-RPC client of the
// example add-on (examples/webextensions_addon) between a simulated browser
// and simulated native hosts. One seed is one execution: everything random or
// timed the client may ask for is drawn from one tape.
//   node sim.mjs drive | replay FILE | one N        (env as for ../check)
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';
import { isDeepStrictEqual } from 'node:util';

const PROP = 'R22';
const repo = process.env.VERIF_REPO || '/repo';
const dir = path.join(repo, 'examples/webextensions_addon');

function loadSource() {
	// the order is that of the add-on's own manifest
	const manifest = JSON.parse(fs.readFileSync(path.join(dir, 'manifest.json'), 'utf8'));
	return manifest.background.scripts.map(f => fs.readFileSync(path.join(dir, f), 'utf8')).join('\n;\n');
}

// the format is that of ../harness: known: property=<id> match="<fragment>" <text>
const known = (() => {
	const f = process.env.VERIF_KNOWN;
	if (!f || !fs.existsSync(f)) return [];
	return fs.readFileSync(f, 'utf8').split('\n').map(l => /^known: property=(\S+) match="([^"]+)" (.*)$/.exec(l)).filter(m => m && m[1] === PROP).map(m => ({ match: m[2], text: m[3] }));
})();
const isKnown = what => known.some(k => what.includes(k.match));

function prng(seed) { // splitmix64 on two halves is enough here
	let s = BigInt.asUintN(64, BigInt(seed) * 0x9e3779b97f4a7c15n + 0x1234567n);
	return () => {
		s = BigInt.asUintN(64, s + 0x9e3779b97f4a7c15n);
		let z = s;
		z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
		z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
		return Number((z ^ (z >> 31n)) >> 11n);
	};
}

class Tape {
	constructor(seed, given) { this.given = given; this.next = given ? null : prng(seed); this.log = []; this.pos = 0; }
	n(k) { // 0..k-1
		let v;
		if (this.given) v = this.pos < this.given.length ? this.given[this.pos] % k : 0;
		else v = this.next() % k;
		this.pos++;
		this.log.push(v);
		return v;
	}
	p(a, b) { return this.n(b) >= b - a; } // value 0 is "no"
	pick(l) { return l[this.n(l.length)]; }
}

class Violation extends Error {}
const settle = () => new Promise(r => setImmediate(r)); // all microtasks have run after it

class Sim {
	constructor(compiled, tape) {
		this.t = tape;
		this.compiled = compiled;
		this.now = 1600000000000 + tape.n(1000);
		this.trace = [];
		this.calls = [];
		this.ports = [];
		this.faults = {};
		this.reached = {};
		this.timers = [];
		this.violation = null;
		this.throws = 0; // failures of the browser's functions
		this.seq = 0;
		this.quiet = false; // faults have stopped
	}
	log(...a) { this.trace.push(`t=${this.now - 1600000000000} ` + a.join(' ')); }
	fault(k) { this.faults[k] = (this.faults[k] || 0) + 1; }
	reach(k) { this.reached[k] = (this.reached[k] || 0) + 1; }
	bad(msg) { if (!this.violation) { this.violation = msg; this.log('VIOLATION', msg); } }

	event() {
		const l = [];
		return {
			l,
			addListener: f => { if (!l.includes(f)) l.push(f); },
			removeListener: f => { const i = l.indexOf(f); if (i >= 0) l.splice(i, 1); },
			hasListener: f => l.includes(f),
		};
	}
	emit(e, ...a) {
		for (const f of e.l.slice()) {
			if (!e.l.includes(f)) continue;
			try { f(...a); } catch (x) { this.log('listener throws', x); this.reach('listener-throws'); }
		}
	}
	brief(v) { let s; try { s = JSON.stringify(v); } catch (e) { s = String(e); } return s === undefined ? 'undefined' : s.length > 120 ? s.slice(0, 100) + '...' + s.length : s; }

	connect(app) {
		const t = this.t;
		if (!this.quiet && t.p(1, 25)) {
			this.fault('connect-throws');
			this.log('connectNative', app, 'throws');
			this.throws++;
			throw new Error('connect failed ' + ++this.seq);
		}
		const sim = this;
		const port = { name: app, error: null, onMessage: this.event(), onDisconnect: this.event() };
		const p = { no: this.ports.length, port, app, inbox: [], outbox: [], alive: true, open: true, told: false, error: null, seen: [], old: [], requests: new Map() };
		if (!this.quiet && t.p(1, 15)) {
			this.fault('no-such-host');
			p.alive = false;
			p.error = new Error('No such native application ' + app);
		}
		p.style = t.n(4); // order in which the host answers
		p.mute = !this.quiet && t.p(1, 12);
		if (p.mute) this.fault('mute-host');
		p.v2 = t.p(1, 3); // JSON-RPC 2.0: only one of result and error
		this.ports.push(p);
		this.log('connectNative', app, '-> port', p.no);
		port.disconnect = () => {
			sim.log('port', p.no, 'disconnected by the add-on');
			p.open = false; p.alive = false; p.byAddon = true;
		};
		port.postMessage = m => {
			if (!p.open) {
				sim.log('post to disconnected port', p.no);
				sim.reach('post-to-disconnected');
				throw new Error('Attempt to postMessage on disconnected port');
			}
			if (!sim.quiet && sim.t.p(1, 40)) {
				sim.fault('post-throws');
				sim.log('postMessage throws');
				sim.throws++;
				throw new Error('post failed ' + ++sim.seq);
			}
			const text = JSON.stringify(m, (k, v) => {
				if (typeof v === 'function' || typeof v === 'symbol') throw new Error('DataCloneError');
				return v;
			});
			sim.posted(p, JSON.parse(text));
		};
		return port;
	}

	posted(p, m) {
		this.log('post to', p.no, this.brief(m));
		const c = this.calls.find(c => m && c.method === m.method && (c.unique || isDeepStrictEqual(c.sent, m.params && m.params[0])) && !c.posted);
		if (!c) return this.bad(`a message is sent which is the request of no call: ${this.brief(m)}`);
		if (!Array.isArray(m.params) || m.params.length !== 1 || !isDeepStrictEqual(m.params[0], c.sent)) this.bad(`the request of call ${c.no} does not carry its argument: ${this.brief(m)}`);
		if (m.id === null || m.id === undefined) this.bad(`the request of call ${c.no} has no id`);
		const other = p.requests.get(m.id);
		if (other && !other.settled) this.bad(`requests of calls ${other.no} and ${c.no} in flight have the same id ${this.brief(m.id)}`);
		c.posted = true;
		c.port = p;
		c.id = m.id;
		p.requests.set(m.id, c);
		if (p.alive) p.inbox.push(m);
	}

	// Reply of a host: what it says is decided here, the id is that of the request.
	reply(p, m) {
		const t = this.t;
		const r = { id: m.id };
		const jsonrpc = p.v2 ? { jsonrpc: '2.0' } : {};
		const k = this.quiet ? t.n(10) : t.n(24);
		const token = ++this.seq;
		if (k < 14) {
			const v = t.pick([() => token + 0.5, () => 0, () => false, () => '', () => `r${token}`, () => true, () => [], () => ({ token }), () => -0.5 * token, () => [token, null], () => ({})])();
			if (!v) this.reach('falsy-result');
			return p.v2 && t.p(1, 2) ? { ...jsonrpc, ...r, result: v } : { ...r, result: v, error: null };
		}
		if (k < 19) return p.v2 && t.p(1, 2) ? { ...jsonrpc, ...r, error: `e${token}` } : { ...r, result: null, error: `e${token}` };
		this.fault('odd-reply');
		if (k === 19) return { ...r, result: null, error: null };
		if (k === 20) return r;
		if (k === 21) return { ...r, error: { code: -32601, message: `o${token}` } };
		if (k === 22) return { ...r, result: { token }, error: `b${token}` };
		return { error: `w${token}` }; // what the wrapper tells if there is no backend
	}

	garbage(p) {
		const t = this.t;
		return t.pick([
			() => null, () => 5, () => 'text', () => true, () => [], () => ({}), () => ({ result: 1 }), () => ({ id: null, result: null, error: 'invalid request' }),
			() => ({ id: 987654, result: 1, error: null }), () => ({ id: '0', result: 'text id', error: null }), () => ({ id: -1, error: 'unknown' }),
			() => ({ id: { a: 1 }, result: 1 }), () => ({ id: '__proto__', result: 1 }), () => ({ id: 1.5, result: 1, error: null }), () => ({ method: 'notify', params: [1] }),
		])();
	}

	deliver(p) {
		const text = p.outbox.shift();
		const m = JSON.parse(text);
		this.log('port', p.no, 'delivers', this.brief(m));
		const c = m !== null && typeof m === 'object' && 'id' in m ? p.requests.get(m.id) : undefined;
		if (c && c.port === p && !c.reply) {
			c.reply = m;
			c.decisive = m.error && (m.result === null || m.result === undefined) ? 'error'
				: !m.error && m.result !== null && m.result !== undefined ? 'result' : 'either';
			this.reach('reply-' + c.decisive);
		} else this.reach('reply-without-request');
		this.emit(p.port.onMessage, JSON.parse(text), p.port);
	}

	disconnect(p) {
		p.open = false;
		p.told = true;
		this.log('port', p.no, 'disconnected', p.error ? p.error.message : '');
		if (p.error) p.port.error = p.error;
		for (const c of p.requests.values()) if (!c.reply) c.lost = true;
		this.reach('disconnect');
		this.emit(p.port.onDisconnect, p.port);
	}

	die(p) {
		p.alive = false;
		p.inbox = [];
		if (this.t.p(1, 2)) {
			p.error = new Error('An unexpected error occurred ' + ++this.seq);
			if (this.t.p(1, 2)) { this.fault('replies-lost'); p.outbox.length = this.t.n(p.outbox.length + 1); }
		}
		this.log('host of port', p.no, 'ends');
	}

	argument(c) {
		const t = this.t;
		const n = c.no;
		return t.pick([
			() => n + 0.25, () => 0, () => null, () => '', () => `text ${n}`, () => ({ n, list: [1, 'two', null] }), () => [n], () => -n, () => false,
			() => 'x'.repeat(t.p(1, 20) ? 300000 : 3000), () => ({ id: n, method: 'other', params: [] }),
			() => { const a = { n }; a.self = a; c.unsendable = true; return a; },
			() => { c.unsendable = true; return () => 1; },
			() => { c.unsendable = true; return { f() {} }; },
			() => { c.unsendable = true; return 10n; },
		])();
	}

	call(depth) {
		const t = this.t;
		const c = { no: this.calls.length, settled: false };
		const which = t.n(this.clients.length);
		const cl = this.clients[which];
		let f;
		if (cl.backend) {
			const m = t.p(1, 2) ? 'sqrt' : 'sleep';
			c.method = m === 'sqrt' ? 'example.Sqrt' : 'example.Sleep';
			const arg = c.no + 1.25;
			c.sent = arg;
			f = () => cl.backend[m](arg);
		} else {
			c.method = `method.${c.no}`;
			c.unique = true;
			const arg = this.argument(c);
			if (!c.unsendable) c.sent = JSON.parse(JSON.stringify(arg));
			f = () => cl.client.sendMessage(c.method, arg);
		}
		c.before = this.throws;
		this.calls.push(c);
		this.log('call', c.no, c.method, 'by client', which, c.unsendable ? '(not serializable)' : '');
		const then = depth < 3 && t.p(1, 6); // another call from the continuation
		let promise;
		try { promise = f(); } catch (e) { promise = Promise.reject(e); }
		if (!promise || typeof promise.then !== 'function') return this.bad(`call ${c.no} returns no promise`);
		const done = (how, v) => {
			if (c.settled) return this.bad(`call ${c.no} is settled twice`);
			c.settled = true;
			this.log('call', c.no, how, how === 'resolved' ? this.brief(v) : String(v && v.message || v));
			this.judge(c, how, v);
			if (then && this.left > 0) { this.left--; this.reach('call-from-continuation'); this.call(depth + 1); }
		};
		promise.then(v => done('resolved', v), e => done('rejected', e));
	}

	judge(c, how, v) {
		this.judged = (this.judged || 0) + 1;
		if (how === 'resolved') {
			this.reach('resolved');
			if (!c.reply) return this.bad(`call ${c.no} is resolved with ${this.brief(v)} though its peer has not answered it`);
			if (c.decisive === 'error') return this.bad(`call ${c.no} is resolved though the peer answered with error ${this.brief(c.reply.error)}`);
			if (c.decisive === 'result' && !isDeepStrictEqual(v, c.reply.result)) return this.bad(`call ${c.no} is resolved with ${this.brief(v)} instead of ${this.brief(c.reply.result)}`);
			return;
		}
		if (c.reply) {
			this.reach('rejected-by-peer');
			if (c.decisive === 'result' && [0, false, ''].includes(c.reply.result) && String(v && v.message).includes('invalid RPC response')) {
				const what = `a result that is falsy in JavaScript is taken for no result: call ${c.no} is rejected (${v.message}) though the peer answered with result ${this.brief(c.reply.result)}`;
				if (!isKnown(what)) return this.bad(what);
				this.reach('known-finding-falsy-result');
				return;
			}
			if (c.decisive === 'result') return this.bad(`call ${c.no} is rejected (${v && v.message}) though the peer answered with result ${this.brief(c.reply.result)}`);
			if (c.decisive === 'error' && typeof c.reply.error === 'string' && !String(v && v.message || v).includes(c.reply.error)) return this.bad(`call ${c.no} is rejected with "${v && v.message}" instead of the peer's error ${this.brief(c.reply.error)}`);
			return;
		}
		if (!c.posted) {
			this.reach('rejected-unsent');
			if (!c.unsendable && this.throws === c.before) this.bad(`call ${c.no} is rejected (${v && v.message}) without being sent though nothing has failed since it was made`);
			return;
		}
		if (c.lost) { this.reach('rejected-disconnected'); return; }
		if (c.port.byAddon) { this.reach('rejected-disconnected'); return; }
		this.bad(`call ${c.no} is rejected (${v && v.message}) though its connection is up and the peer has not answered`);
	}

	async run() {
		const t = this.t;
		const none = () => {};
		const console_ = { log: none, debug: none, error: none, warn: none, info: none, trace: none };
		const browser = {
			runtime: { connectNative: a => this.connect(a), onInstalled: this.event(), onStartup: this.event(), lastError: null },
			menus: { onClicked: this.event(), create: none, removeAll: none },
		};
		const setTimeout_ = (f, ms = 0, ...a) => { const id = this.timers.length + 1; this.timers.push({ id, at: this.now + Math.max(0, +ms || 0), f: () => f(...a) }); return id; };
		const clearTimeout_ = id => { const x = this.timers.find(x => x.id === id); if (x) x.off = true; };
		const math = Object.create(Math, { random: { value: () => t.n(1 << 30) / (1 << 30) } });
		for (const k of Object.getOwnPropertyNames(Math)) if (k !== 'random') math[k] ??= Math[k];
		const sim = this;
		class FakeDate extends Date { constructor(...a) { a.length ? super(...a) : super(sim.now); } static now() { return sim.now; } }
		const api = this.compiled(browser, console_, setTimeout_, clearTimeout_, math, FakeDate);
		this.emit(browser.runtime.onInstalled, { reason: 'install' });
		this.clients = [];
		const nClients = 1 + (t.p(1, 3) ? 1 + t.n(2) : 0);
		for (let i = 0; i < nClients; i++) {
			if (t.p(1, 4)) { this.clients.push({ backend: new api.Backend() }); continue; }
			const o = { debug: t.p(1, 3) };
			if (t.p(1, 4)) { let n = 0; o.idGenerator = t.p(1, 2) ? () => `id-${i}-${n++}` : () => 1000 * (i + 1) + n++; }
			this.clients.push({ client: t.p(1, 5) ? new api.JsonRpcClient('app' + i) : new api.JsonRpcClient('app' + i, o) });
		}
		this.left = t.p(1, 200) ? 100 + t.n(1000) : t.p(1, 4) ? 10 + t.n(50) : 1 + t.n(9);
		const wFault = t.n(6), wDie = t.n(5), wCall = 1 + t.n(8), wReply = 1 + t.n(8), wDeliver = 1 + t.n(8);
		const cap = 40 * (this.left + 20);
		let step = 0;
		for (; !this.violation; step++) {
			if (step > cap) this.quiet = true;
			this.now += t.n(50);
			for (const x of this.timers.slice()) if (!x.off && x.at <= this.now) { x.off = true; this.log('timer'); x.f(); await settle(); }
			const acts = [];
			if (this.left > 0) acts.push([wCall, () => { this.left--; this.call(0); }]);
			for (const p of this.ports) {
				if (p.alive && p.inbox.length && !p.mute) acts.push([wReply, () => {
					const i = p.style === 0 ? 0 : p.style === 1 ? p.inbox.length - 1 : t.n(p.inbox.length);
					const [m] = p.inbox.splice(i, 1);
					const text = JSON.stringify(this.reply(p, m));
					p.outbox.push(text);
					p.old.push(text);
					this.log('host of port', p.no, 'answers', text.slice(0, 100));
				}]);
				if (p.open && p.outbox.length) acts.push([wDeliver, () => this.deliver(p)]);
				if (p.open && !p.alive && !p.outbox.length) acts.push([wDeliver, () => this.disconnect(p)]);
				if (p.alive && !this.quiet) {
					if (wFault && this.left + p.inbox.length > 0) acts.push([wFault / 4, () => {
						if (p.old.length && t.p(1, 2)) { this.fault('duplicate-reply'); p.outbox.push(t.pick(p.old)); } else {
							this.fault('garbage');
							const g = JSON.stringify(this.garbage(p));
							this.log('host of port', p.no, 'sends', g);
							p.outbox.push(g);
						}
					}]);
					if (wDie) acts.push([wDie / 12, () => { this.fault('host-dies'); this.die(p); }]);
				}
			}
			if (!acts.length || (this.left <= 0 && !acts.some(a => a[0] >= 1))) {
				// Faults stop. A host that does not answer is ended by the browser.
				const p = this.ports.find(p => p.alive && (p.mute || p.requests.size));
				const pending = this.timers.filter(x => !x.off).sort((a, b) => a.at - b.at);
				this.quiet = true;
				if (this.calls.every(c => c.settled)) break;
				if (p) { this.die(p); continue; }
				if (pending.length && pending[0].at < this.now + 3600000) { this.now = pending[0].at; continue; }
				break;
			}
			const scale = acts.map(a => Math.max(1, Math.round(a[0] * 12)));
			let w = t.n(scale.reduce((a, b) => a + b));
			let i = 0;
			while (w >= scale[i]) w -= scale[i++];
			acts[i][1]();
			await settle();
		}
		this.steps = step;
		await settle();
		if (!this.violation) {
			for (const c of this.calls) {
				if (!c.settled) {
					this.bad(`call ${c.no} is never settled: ${c.reply ? 'its reply ' + this.brief(c.reply) + ' has arrived' : c.lost ? 'its connection was lost' : c.posted ? 'it was sent' : 'it was not sent'}`);
					break;
				}
			}
		}
		return this;
	}
}

function compile() {
	const src = loadSource();
	// A fresh evaluation for each run gives all variables their initial values.
	const f = new Function('browser', 'console', 'setTimeout', 'clearTimeout', 'Math', 'Date', src + '\n;return { JsonRpcClient, Backend };');
	return (...a) => f(...a);
}

async function execute(compiled, seed, given) {
	const tape = new Tape(seed, given);
	const sim = new Sim(compiled, tape);
	await sim.run();
	const h = crypto.createHash('sha256').update(sim.trace.join('\n')).digest('hex').slice(0, 16);
	return { sim, hash: h, tape: tape.log };
}

const seedOf = (seed, i) => (BigInt(seed) << 32n) + BigInt(i);

async function worker({ seed, from, step, runs, wall }) {
	const compiled = compile();
	const st = { runs: 0, faults: {}, reached: {}, sim: 0, steps: 0, judged: 0, calls: 0, ports: 0, hashes: [], nontrivial: [], mismatches: 0, again: 0, samples: [], violation: null };
	const t0 = Date.now();
	for (let i = from; i < runs && Date.now() - t0 < wall; i += step) {
		const { sim, hash, tape } = await execute(compiled, seedOf(seed, i));
		st.runs++;
		for (const k in sim.faults) st.faults[k] = (st.faults[k] || 0) + sim.faults[k];
		for (const k in sim.reached) st.reached[k] = (st.reached[k] || 0) + sim.reached[k];
		st.sim += (sim.now - 1600000000000) / 1000;
		st.steps += sim.steps; st.judged += sim.judged || 0; st.calls += sim.calls.length; st.ports += sim.ports.length;
		st.hashes.push(hash);
		if (sim.judged) st.nontrivial.push(hash);
		if (st.runs % 25 === 1) {
			st.again++;
			const b = await execute(compiled, seedOf(seed, i));
			if (b.hash !== hash) st.mismatches++;
		}
		if (st.samples.length < 1 && sim.calls.length > 3) st.samples.push(`run ${i}: ${sim.calls.length} calls, ${sim.ports.length} connections, ${sim.steps} steps`, ...sim.trace.slice(0, 12));
		if (sim.violation) { st.violation = { index: i, what: sim.violation, tape }; break; }
	}
	return st;
}

const kind = s => s.replace(/\d+/g, 'N').slice(0, 60).replace(/(with|:).*/, '');

async function minimise(compiled, tape, what) {
	const want = kind(what);
	const end = Date.now() + 20000;
	let best = tape;
	const ok = async t => { const r = await execute(compiled, 0, t); return r.sim.violation && kind(r.sim.violation) === want ? r.tape : null; };
	for (let size = Math.max(1, best.length >> 1); size >= 1 && Date.now() < end; size = size >> 1) {
		for (let i = 0; i < best.length && Date.now() < end;) {
			const cut = await ok([...best.slice(0, i), ...best.slice(i + size)]);
			if (cut && cut.length < best.length) { best = cut; continue; }
			i += size;
		}
	}
	for (let i = 0; i < best.length && Date.now() < end; i++) {
		for (const v of [0, best[i] >> 1]) {
			if (v >= best[i]) continue;
			const t = await ok([...best.slice(0, i), v, ...best.slice(i + 1)]);
			if (t && t.length <= best.length) { best = t; break; }
		}
	}
	return best;
}

async function main() {
	const [mode, arg] = process.argv.slice(2);
	const seed = Number(process.env.VERIF_SEED || 1);
	const tier = process.env.VERIF_TIER || 'quick';
	if (mode === 'one') {
		const r = await execute(compile(), seedOf(seed, Number(arg)));
		console.log(r.sim.trace.join('\n'));
		console.log('hash', r.hash);
		return r.sim.violation ? 1 : 0;
	}
	if (mode === 'replay') {
		const f = JSON.parse(fs.readFileSync(arg, 'utf8'));
		const r = await execute(compile(), 0, f.tape);
		for (const l of r.sim.trace) console.log('  ' + l);
		if (!r.sim.violation) { console.log('not reproduced'); return 0; }
		console.log(r.hash === f.hash ? 'reproduced exactly' : 'reproduced with a different history');
		console.log(`VIOLATION property=${PROP} replay=${arg}`);
		console.log(r.sim.violation);
		return 1;
	}
	const runs = Number(process.env.VERIF_RUNS || (tier === 'thorough' ? 3000000 : 40000));
	const wall = 1000 * Number(process.env.VERIF_WALL || (tier === 'thorough' ? 2400 : 100));
	const n = Number(process.env.VERIF_WORKERS || 8);
	const t0 = Date.now();
	const compiled = compile();
	const parts = await Promise.all([...Array(n).keys()].map(w => new Promise((res, rej) => {
		const k = new Worker(fileURLToPath(import.meta.url), { workerData: { seed, from: w, step: n, runs, wall } });
		k.on('message', res);
		k.on('error', rej);
	})));
	const sum = (o, p) => { for (const k in p) o[k] = (o[k] || 0) + p[k]; return o; };
	const tot = { runs: 0, sim: 0, steps: 0, judged: 0, calls: 0, ports: 0, mismatches: 0, again: 0 };
	const faults = {}, reached = {}, hashes = new Set(), nontrivial = new Set();
	for (const p of parts) {
		for (const k in tot) tot[k] += p[k];
		sum(faults, p.faults); sum(reached, p.reached);
		p.hashes.forEach(h => hashes.add(h)); p.nontrivial.forEach(h => nontrivial.add(h));
	}
	const viol = parts.map(p => p.violation).filter(Boolean).sort((a, b) => a.index - b.index)[0];
	const wall_s = (Date.now() - t0) / 1000;
	const evidence = {
		property: PROP, tier, seed, level: 'exploration', wall_s, violations: viol ? 1 : 0, known_findings: known.filter(() => reached['known-finding-falsy-result']).map(k => k.text),
		assumptions: [
			'the models of the browser (connectNative, ports, events) and of the native host stand for the real ones',
			'JavaScript code runs to completion between events; the order of events is what is scheduled',
			'a clean batch is evidence from sampled schedules and faults, not proof',
		],
		coverage: {
			evaluations: tot.runs, planned_runs: runs, distinct_histories: hashes.size, distinct_nontrivial: nontrivial.size,
			rule: 'a case is a set of clients of the add-on with seeded calls, hosts that answer in any order, misbehave or die, and a browser that delivers messages and disconnects in a seeded order; non-trivial if at least one call was judged; distinct by the hash of the whole event history',
			samples: parts.flatMap(p => p.samples).slice(0, 30),
			calls: tot.calls, connections: tot.ports, observations_judged: tot.judged, scheduling_steps: tot.steps,
			faults_injected: faults, conditions_reached: reached,
			simulated_seconds: Math.round(tot.sim), runs_per_hour: Math.round(tot.runs / wall_s * 3600), seeds_per_hour: Math.round(tot.runs / wall_s * 3600),
			determinism_reexecuted_runs: tot.again, determinism_mismatches: tot.mismatches, worker_threads: n,
			interleaving_measure_of_reached: 'hash over the sequence of all events (calls, messages, faults, deliveries, outcomes, time) of a run',
			components_running_real_code: ['examples/webextensions_addon/rpc_client.js', 'examples/webextensions_addon/background.js', 'JavaScript promises (V8)'],
			components_replaced_by_a_model: ['browser.runtime, ports and events', 'native host', 'timers, clock, random numbers'],
		},
	};
	const evdir = process.env.VERIF_EVIDENCE;
	fs.mkdirSync(evdir, { recursive: true });
	fs.writeFileSync(path.join(evdir, PROP + '.json'), JSON.stringify(evidence, null, 1) + '\n');
	if (tot.mismatches) { console.log(`${tot.mismatches} runs are not deterministic`); return 2; }
	if (viol) {
		const tape = await minimise(compiled, viol.tape, viol.what);
		const r = await execute(compiled, 0, tape);
		const f = path.join(process.env.VERIF_REPLAYS, `${PROP}-${seed}-${viol.index}.json`);
		fs.writeFileSync(f, JSON.stringify({ property: PROP, engine: 'jssim', seed, index: viol.index, violation: r.sim.violation, hash: r.hash, tape: r.tape, trace: r.sim.trace }, null, 1));
		console.log(`VIOLATION property=${PROP} replay=${f}`);
		console.log(r.sim.violation);
		for (const l of r.sim.trace.slice(-60)) console.log('  ' + l);
		return 1;
	}
	if (reached['known-finding-falsy-result']) for (const k of known) console.log(`KNOWN-FINDING: property=${PROP} ${k.text}`);
	if (!tot.judged) { console.log('nothing was judged'); return 2; }
	console.log(`${PROP}: ${tot.runs} runs, ${nontrivial.size} distinct, ${tot.judged} calls judged, ${wall_s.toFixed(1)} s, no violation`);
	return 0;
}

process.on('unhandledRejection', () => {});
if (isMainThread) {
	main().then(c => { process.exitCode = c; }, e => { console.error(e); process.exitCode = 2; });
} else {
	worker(workerData).then(r => parentPort.postMessage(r), e => { throw e; });
}
