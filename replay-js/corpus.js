'use strict';
// Syntax the random programs do not produce. Checked without running.
const es = [
  'label: { break label; }', 'a: b: for (;;) { continue a; }', 'for (var i = 0, j = 1; i < j; i++);', 'for (;;) break;', 'for (x.y of z) ;', 'for (let [a = 1, { b = 2 }] of z) { a; }', 'for (const k in o) if (k) continue; else break;',
  'async function af() { for await (const x of y) x; await z; }', 'function* g() { yield* h(); yield; }', 'class A extends (B, C) { static #p = 1; #q; static { this.#p; } get [k]() { return 1; } set "s"(v) {} static async *m() {} 0() {} }',
  'class D { constructor() { "use strict"; super.x; } }', 'class E { x = () => { return 1; }; static y = function () {}; #z = `t`; "q" = 1; [c()] = 2; }', 'const { a: { b: [c = 1, ...d] = [] }, ...e } = f;', 'x = y ? z ? 1 : 2 : w ? 3 : 4;', '(a, b), c;', 'a ?? b;', '(a ?? b) || c && (d || e);', 'f(a || b, c && d)(e || f);', 'x ||= y && z;', 'x &&= () => 1;', 'if (a) ; else ;', 'if (a) if (b) c; else d;', 'if (a || b) { } else if (c && d) { e; }',
  'do x(); while (y);', 'do { } while (a && b)', 'while (a) while (b) c;', 'switch (a) {}', 'switch (a) { default: }', 'switch (a || b) { case c && d: case e: f; break; default: { g; } }', 'switch (tag`x`) { case tag`y`: break; }', 'try { a; } catch { b; } finally { c; }', 'try { } catch ({ message: m = "x" }) { m; }', 'throw a || b;', 'debugger;', ';', '{}', '{{{}}}', 'var a, b = 1, c;', 'let f1 = function () {}, f2 = () => {}, f3 = class {};', 'var o = { a, b() {}, get c() { return 1; }, set c(v) {}, [d]: 1, async *e() {}, ...f, "g": h, 1: 2, async "s"() {}, *[k]() {}, get "x"() { return 1; }, set [y](v) {} };',
  'export default class {}', 'export const z1 = 1, z2 = () => 1;', 'export let z3;', 'export function z4(a = 1, { b = 2 } = {}) { return a; }', 'export { z3 as z5 };', 'export * from "m";', 'export * as ns from "m";', 'import im, { x as y2 } from "m";', 'import * as q from "m"; q.x;', 'import("m").then(x => x || 1);', 'new.target;', 'import.meta.url;', 'x?.y?.[z]?.(w || v);', 'new (a || b)(c);', 'delete a[b || c];', 'void (() => {})();', 'tag`a${b || c}d${() => 1}`;', 'const s = styled(`x`)`y`;', 'let t = tag`a` || tag`b`;', '`a${b ? c : d}`;', '(async () => { await (a || b); })();', '(x => x)(1);', '(() => ({}))();', '(({ a = 1 }, [b = 2] = [], ...c) => a)({});', '(function () { return this; })();', '(function named() { named; })();', '!function () { }();',
  'a = b = c || d;', '[a, b = 1] = [c];', '({ a, b: c = 1 } = d);', 'a++ || --b;', 'a, b || c, d;', 'typeof a === "x" && b;', 'a in b || c instanceof d;', '1n ** 2n;', '/x/g.test(y) && z;', '"use strict";', "'other directive';", 'var v1 = "str";', 'function dir() { "use strict"; return 1; }', 'const dir2 = () => { "use server"; "use strict"; };', 'var { x1 = 1 } = { get y() { "use strict"; return 1; } };', 'function inner() { function nested() { return () => () => 1; } return nested; }', '/* istanbul ignore next */ function ign() { a || b; }', 'if (a) { b; } /* istanbul ignore else */ else { c; }', '/* istanbul ignore if */ if (a) b; else c;', 'x = /* istanbul ignore next */ a || /* istanbul ignore next */ b;', 'y = a ? /* istanbul ignore next */ b : c;', 'switch (a) { /* istanbul ignore next */ case 1: b; default: c }', '/* istanbul ignore next */ export const z6 = 1;', '/* istanbul ignore next */ export default function () { a; }', 'class F { /* istanbul ignore next */ m() { a; } n() { b; } /* istanbul ignore next */ p = a || b; }', '/* istanbul ignore next */ var v2 = a || b, v3 = () => c;', '/* istanbul ignore next */ for (;;) { a; }', 'for (;;) /* istanbul ignore next */ a;', 'function pa(a, /* istanbul ignore next */ b = 1) {}', 'var o2 = { /* istanbul ignore next */ m() { a; }, /* istanbul ignore next */ get g() { b; } };', '/* istanbul ignore next */ if (a) { b; } else { c; }', '/* istanbul ignore next */ a || b;', '(/* istanbul ignore next */ () => { a; })();', '/* istanbul ignore next */ class G { m() { a; } }', '/* istanbul ignore next */ export class H { m() { a; } }', '/* istanbul ignore next */ export function I() { a; }', '/* istanbul ignore next */ try { a; } catch (e) { b; }', '/* istanbul ignore next */ while (a) b;', '/* istanbul ignore next */ switch (a) { case 1: b; }', '/* istanbul ignore next */ throw a;', '/* istanbul ignore next */ lab: a;', 'function ret() { /* istanbul ignore next */ return a || b; }', 'for (;;) { /* istanbul ignore next */ break; }', 'for (;;) { /* istanbul ignore next */ continue; }',
];
const script = ['with (a) b;', 'with (a) { b || c; }', 'var yield1 = 1; if (a) function f() {}', 'var let1; delete x;', 'function sloppy() { return arguments.callee; }', 'a: function lf() {}'];
const ts = [
  'function ov(a: number): void; function ov(a: string): void; function ov(a: any) { return a || 1; }', 'declare function df(x: number): void;', 'abstract class AC { abstract m(): void; abstract get p(): number; n(): void { a; } constructor(private x = 1, public readonly y?: string) {} }', 'declare class DC { m(): void; x: number; }', 'class OV { m(a: number): void; m(a: any) { a; } private z? = 1; declare w: number; static s!: string; }', 'enum E1 { A = 1, B = A || 2, C = "x".length }', 'const enum E2 { A }', 'declare enum E3 { A }', 'namespace N1 { export const a = 1; export function f() { return a && 2; } b; }', 'namespace N2.N3 { export let c = () => 1; }', 'declare namespace N4 { const x: number; function f(): void; }', 'declare module "m" { export const x: number; }', 'declare global { interface W { } }', 'interface I1 { a: number; m(): void }', 'type T1<A> = A extends string ? 1 : 2;', 'let as1 = (a as any) || <any>b;', 'a!.b || c!;', 'let sat = { a: 1 } satisfies any;', 'import type { X } from "m";', 'import eq = require("m");', 'import al = N1.a;', 'export type { T1 };', 'function gen<T extends object = {}>(this: any, a?: T, ...r: any[]): a is T { return !!a; }', 'const ga = <T,>(x: T): T => x;', '@dec class DE { @dec() m(@dec p: any) { return p; } @dec x = a || b; }', 'export abstract class EA { abstract f(x: number): string; }', 'export declare const dz: number;', 'export default interface ID {}', 'let tup: [a: string, b?: number] = ["x"];', 'function assertIs(x: any): asserts x is string {}', 'class Idx { [k: string]: any; accessor q = 1; override m() { return 1; } }', 'var x2 = y as const;', 'export = eq;', 'label: while (a as any) { break label; }', 'for (const q of w as any[]) q;',
];
const jsx = ['const j1 = <div a={b || c} {...d}>{e && <F />}{g ? <H /> : null}text</div>;', 'function J({ a = 1 }) { return <>{a.map(x => <li key={x}>{x}</li>)}</>; }', '<A.B c="d" />;', 'const j2 = () => <div onClick={() => { a; }}>{/* c */}</div>;', 'x = a ? <B /> : <C d={() => e || f} />;', 'const j3 = <div css={css`a${b || c}`} />;'];
// all the syntax the parser can be told to accept
const ext = ["using a = b || c;", "{ using a = b ? c : d, e = f; }", "async function f() { await using d = e || g; }", "for (using x of y) x;", "async function f() { for (await using x of y) { x && z; } }", "@dec(a || b) class A { @d(x => x) m() { 1; } @d x = 1; accessor y = a || b; static accessor #z = () => 2; @q() accessor [k] = 1; }", "@a() export class B { n(@p x) {} }", "export @a class C {}", "import j from \"./x.json\" with { type: \"json\" };", "export * from \"m\" with {type: \"json\"};", "import defer * as ns from \"m\";", "import source x from \"m\";", "return a || b;", "if (a) return; else b;", "super.x || y;", "x = { accessor: 1, async: 2, get: 3 }; ", "class D { accessor; static; get; set; async; accessor = 1 }", "label: using: a;", "export default @d class { constructor() { super(); } }", "class E extends F { static { using q = a; await1; } }", "const k = class { @x #p() {} static async *#q() {} get #r() { return 1 } }", "import(\"a\", { with: {} });", "import.meta.x && y;", "new.target", "const {a = 1, ...b} = c ?? d;", "export { default } from \"q\"; export { default as z, y as \"s t\" } from \"q\";", "x?.y?.[z || w]?.(q && r);", "a ||= b; c &&= d || e; f ??= g;", "/(?<n>x)/v.test(a) || b;", "`${a || b}${`${c && d}`}`", "async () => { for await (const x of y); }", "var \\u0061b = 1;", "1_000n;", "class G { static async *[Symbol.iterator]() { yield* a || b; } \"constructor\"() {} }", "class H { \"constructor\"() {} static constructor() {} static prototype1 = 1 }", "({ __proto__: null, async *m() {}, get \"a b\"() { return 1 }, set 1(v) {}, [x || y]: z })", "with_: { }", "do ; while (0) x;", "if (1) ; else ;", "for (;;) ;", "for (var x in y || z) ;", "for (let of of ofs) ;", "async: while (1) break async;", "try {} catch {}", "try { a } finally { b }", "switch (1) { case 1: using; }", "debugger;", "throw a || b;", "<a/>;", "<></>;", "<a b=<c/> d={...e} />", "<a {...b || c}>{...d}</a>", "<a.b-c:d />", "\"use strict\"; \"x\"; a;", "", "// istanbul ignore file", "/* istanbul ignore next */", "{ }", ";", ";;;", "export {}", "() => {}", "(a, b) => c", "async x => await x", "function* g() { const x = yield a || b; }", "(function(){ return })()", "!function(a = () => { return b || c }){}", "new (class { constructor(a = 1) {} })", "a = class { static x = this.y || 1; static { this.z } }", "x = y => z => w || v", "if (a) function f() {} ", "export default function () {}", "export default async () => {}", "export default a || b", "export default class extends a {}", "import a, { b as c } from \"d\"; import * as e from \"f\"; import \"g\"; export { c as \"h\" };", "for await (const x of y) x;", "await a || b;"];
const tsx = ["const f = <T,>(x: T) => x || 1;", "<A<string> b={c || d} />;", "enum E { a = 1 << 2, b = \"x\".length, c = a | b }", "const enum F { a }", "declare enum G { }", "namespace N.M { export const x = a || b; export namespace P { y; } }", "declare global { var x: number }", "declare module \"m\" { export default x; }", "module \"x\" {}", "abstract class A<T> { abstract x: number; abstract m(): void; private y? = a || b; declare z: string; constructor(private q = 1, readonly r?: string) { super(); } static { a; } [k: string]: any; m2?(): void; override n() {} get p(): number; accessor s = 1; }", "function a(this: Window, x?: number, ...y: any[]): asserts x is number { }", "x as any as number || y!;", "y! || z;", "x satisfies Y && z;", "import x = require(\"y\");", "import type { T } from \"u\"; import { type V } from \"w\"; export type { T };", "export = x;", "export as namespace Q;", "export import a = b.c;", "type T1 = { [K in keyof T]?: T[K] } | `a${string}`;", "interface I extends J { (x): y; new (z): w; get a(): b; }", "let x: unique symbol;", "function f(): void; function f(x?: any) { return x ?? 1 }", "@dec class B { @d x: number; @e m(@f p: any = a || b) {} }", "for (const x of <any>y) {}", "a<b>(c);", "new A<b>;", "const x = <T extends U>(y: T) => { return y && z };", "let { a, b = 1 }: any = c;", "class C<in out T> implements D, E {}", "declare class H { x: number; m(): void }", "declare const q: number; declare let r; declare var s;", "export default abstract class { abstract m(); }", "export default interface K {}", "export abstract class L { }", "export declare function m(): void;", "function over(a): void\nfunction over(a) {}", "if (x) namespace1; ", "class M { constructor(x); constructor(x?) { } m(); m() {} }", "try { } catch (e: unknown) { }", "var v = a! ? b! : c!;", "delete a!.b;", "a?.b!.c;", "(a as any) = 1;", "(<any>a) ||= 2;", "[x!] = y;", "({ a: b! } = c);", "for (x! of y);", "using u = v;", "await using w = x;", "let z = y satisfies any ? 1 : 2", "export type A2 = 1; export interface B2 {} export enum C2 { d }", "type X = typeof import(\"y\")", "let tpl: `a`", "abstract class Z { abstract accessor a: number; protected abstract get b(): any }", "function assertIsString(val: any): asserts val is string {}", "namespace Empty {}", "namespace V { \"use strict\"; a || b; export class C { m() { d } } function f() {} if (x) y; }", "declare namespace W { const x: 1; function f(): void; }", "global1; declare module Foo.Bar { }", "export namespace Y { export enum Q { a = b() } }"];
module.exports = { es, script, ts, jsx, ext, tsx };
