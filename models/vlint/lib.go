// Package vlint runs the real linter end to end on in-memory programs.
package vlint

// Lib is a small default library: the globals that rules look at.
const Lib = `interface Object { toString(): string; toLocaleString(): string; valueOf(): Object; hasOwnProperty(v: string): boolean; }
interface ObjectConstructor { new(value?: any): Object; (): any; keys(o: object): string[]; }
declare var Object: ObjectConstructor;
interface Function { apply(this: Function, thisArg: any, argArray?: any): any; call(this: Function, thisArg: any, ...argArray: any[]): any; bind(this: Function, thisArg: any, ...argArray: any[]): any; readonly length: number; toString(): string; }
interface FunctionConstructor { new(...args: string[]): Function; (...args: string[]): Function; }
declare var Function: FunctionConstructor;
interface CallableFunction extends Function {}
interface NewableFunction extends Function {}
interface IArguments { [index: number]: any; length: number; }
interface String { toString(): string; charAt(pos: number): string; charCodeAt(index: number): number; indexOf(searchString: string, position?: number): number; lastIndexOf(searchString: string, position?: number): number; match(regexp: string | RegExp): RegExpMatchArray | null; replace(a: string | RegExp, b: string): string; slice(start?: number, end?: number): string; split(s: string): string[]; substring(start: number, end?: number): string; toLowerCase(): string; trim(): string; readonly length: number; valueOf(): string; readonly [index: number]: string; includes(searchString: string, position?: number): boolean; startsWith(searchString: string, position?: number): boolean; endsWith(searchString: string, endPosition?: number): boolean; at(i: number): string | undefined; }
interface StringConstructor { new(value?: any): String; (value?: any): string; raw(t: any, ...s: any[]): string; }
declare var String: StringConstructor;
interface Boolean { valueOf(): boolean; }
interface BooleanConstructor { new(value?: any): Boolean; <T>(value?: T): boolean; }
declare var Boolean: BooleanConstructor;
interface Number { toString(radix?: number): string; valueOf(): number; toFixed(n?: number): string; }
interface NumberConstructor { new(value?: any): Number; (value?: any): number; }
declare var Number: NumberConstructor;
interface BigInt { toString(radix?: number): string; valueOf(): bigint; }
interface BigIntConstructor { (value: any): bigint; }
declare var BigInt: BigIntConstructor;
interface Symbol { toString(): string; valueOf(): symbol; }
interface SymbolConstructor { (d?: string | number): symbol; readonly iterator: unique symbol; readonly asyncIterator: unique symbol; readonly dispose: unique symbol; readonly asyncDispose: unique symbol; }
declare var Symbol: SymbolConstructor;
interface RegExpMatchArray extends Array<string> { index?: number; input?: string; }
interface RegExpExecArray extends Array<string> { index: number; input: string; }
interface RegExp { exec(string: string): RegExpExecArray | null; test(string: string): boolean; readonly source: string; readonly global: boolean; lastIndex: number; }
interface RegExpConstructor { new(pattern: RegExp | string, flags?: string): RegExp; (pattern: RegExp | string, flags?: string): RegExp; }
declare var RegExp: RegExpConstructor;
interface Error { name: string; message: string; stack?: string; }
interface ErrorConstructor { new(message?: string): Error; (message?: string): Error; }
declare var Error: ErrorConstructor;
interface TypeError extends Error {}
interface TypeErrorConstructor extends ErrorConstructor { new(message?: string): TypeError; (message?: string): TypeError; }
declare var TypeError: TypeErrorConstructor;
interface Iterator<T, R = any, N = any> { next(...args: [] | [N]): IteratorResult<T, R>; }
interface IteratorYieldResult<T> { done?: false; value: T; }
interface IteratorReturnResult<R> { done: true; value: R; }
type IteratorResult<T, R = any> = IteratorYieldResult<T> | IteratorReturnResult<R>;
interface Iterable<T, R = any, N = any> { [Symbol.iterator](): Iterator<T, R, N>; }
interface IterableIterator<T, R = any, N = any> extends Iterator<T, R, N> { [Symbol.iterator](): IterableIterator<T, R, N>; }
interface AsyncIterator<T, R = any, N = any> { next(...args: [] | [N]): Promise<IteratorResult<T, R>>; }
interface AsyncIterable<T, R = any, N = any> { [Symbol.asyncIterator](): AsyncIterator<T, R, N>; }
interface AsyncIterableIterator<T, R = any, N = any> extends AsyncIterator<T, R, N> { [Symbol.asyncIterator](): AsyncIterableIterator<T, R, N>; }
interface Disposable { [Symbol.dispose](): void; }
interface AsyncDisposable { [Symbol.asyncDispose](): PromiseLike<void>; }
interface ReadonlyArray<T> { readonly length: number; toString(): string; indexOf(e: T, i?: number): number; includes(e: T, i?: number): boolean; map<U>(f: (value: T, index: number, array: readonly T[]) => U): U[]; forEach(f: (value: T, index: number, array: readonly T[]) => void): void; filter(p: (value: T, index: number, array: readonly T[]) => unknown): T[]; find(p: (value: T, index: number, obj: readonly T[]) => unknown): T | undefined; join(s?: string): string; readonly [n: number]: T; [Symbol.iterator](): IterableIterator<T>; }
interface Array<T> { length: number; toString(): string; push(...items: T[]): number; pop(): T | undefined; concat(...items: T[]): T[]; join(s?: string): string; sort(compareFn?: (a: T, b: T) => number): this; indexOf(e: T, i?: number): number; includes(e: T, i?: number): boolean; splice(start: number, deleteCount?: number): T[]; slice(a?: number, b?: number): T[]; map<U>(f: (value: T, index: number, array: T[]) => U): U[]; forEach(f: (value: T, index: number, array: T[]) => void): void; filter(p: (value: T, index: number, array: T[]) => unknown): T[]; find(p: (value: T, index: number, obj: T[]) => unknown): T | undefined; some(p: (value: T, index: number, array: T[]) => unknown): boolean; every(p: (value: T, index: number, array: T[]) => unknown): boolean; reduce<U>(f: (p: U, c: T, i: number, a: T[]) => U, initial: U): U; at(i: number): T | undefined; [n: number]: T; [Symbol.iterator](): IterableIterator<T>; }
interface ArrayConstructor { new(n?: number): any[]; (n?: number): any[]; isArray(arg: any): arg is any[]; }
declare var Array: ArrayConstructor;
interface TemplateStringsArray extends ReadonlyArray<string> { readonly raw: readonly string[]; }
interface PromiseLike<T> { then<A = T, B = never>(onfulfilled?: ((value: T) => A | PromiseLike<A>) | null, onrejected?: ((reason: any) => B | PromiseLike<B>) | null): PromiseLike<A | B>; }
interface Promise<T> { then<A = T, B = never>(onfulfilled?: ((value: T) => A | PromiseLike<A>) | null, onrejected?: ((reason: any) => B | PromiseLike<B>) | null): Promise<A | B>; catch<B = never>(onrejected?: ((reason: any) => B | PromiseLike<B>) | null): Promise<T | B>; finally(f?: (() => void) | null): Promise<T>; }
interface PromiseConstructor { new <T>(executor: (resolve: (value: T | PromiseLike<T>) => void, reject: (reason?: any) => void) => void): Promise<T>; resolve(): Promise<void>; resolve<T>(value: T): Promise<Awaited<T>>; reject<T = never>(reason?: any): Promise<T>; all<T>(values: Iterable<T>): Promise<Awaited<T>[]>; allSettled<T>(values: Iterable<T>): Promise<T[]>; any<T>(values: Iterable<T>): Promise<Awaited<T>>; race<T>(values: Iterable<T>): Promise<Awaited<T>>; }
declare var Promise: PromiseConstructor;
type Awaited<T> = T extends null | undefined ? T : T extends object & { then(onfulfilled: infer F, ...args: infer _): any } ? F extends ((value: infer V, ...args: infer _) => any) ? Awaited<V> : never : T;
type Partial<T> = { [P in keyof T]?: T[P] };
type Readonly<T> = { readonly [P in keyof T]: T[P] };
type Record<K extends keyof any, T> = { [P in K]: T };
type NonNullable<T> = T & {};
interface ThisType<T> {}
interface Map<K, V> { get(k: K): V | undefined; set(k: K, v: V): this; has(k: K): boolean; readonly size: number; [Symbol.iterator](): IterableIterator<[K, V]>; }
interface MapConstructor { new <K = any, V = any>(e?: readonly (readonly [K, V])[] | null): Map<K, V>; }
declare var Map: MapConstructor;
interface Set<T> { add(v: T): this; has(v: T): boolean; readonly size: number; [Symbol.iterator](): IterableIterator<T>; }
interface SetConstructor { new <T = any>(v?: readonly T[] | null): Set<T>; }
declare var Set: SetConstructor;
interface Date { getTime(): number; toString(): string; }
interface DateConstructor { new(): Date; (): string; now(): number; }
declare var Date: DateConstructor;
interface Console { log(...a: any[]): void; }
declare var console: Console;
declare function setTimeout(handler: string | ((...a: any[]) => void), timeout?: number, ...args: any[]): number;
declare function eval(x: string): any;
declare function parseInt(s: string, radix?: number): number;
declare var NaN: number;
`
