// The npm package "clibri" as the generated peers see it, provided by the simulator: the peers are
// compiled against and linked with this one, unmodified.
export abstract class Logger {
    public abstract clone(alias: string): Logger;
    public abstract verb(msg: string): string;
    public abstract debug(msg: string): string;
    public abstract info(msg: string): string;
    public abstract warn(msg: string): string;
    public abstract err(msg: string): string;
}

export class DefaultLogger extends Logger {
    constructor(_alias: string) { super(); }
    public clone(alias: string): Logger { return new DefaultLogger(alias); }
    public verb(msg: string): string { return msg; }
    public debug(msg: string): string { return msg; }
    public info(msg: string): string { return msg; }
    public warn(msg: string): string { return msg; }
    public err(msg: string): string { return msg; }
}

export class Subscription {
    private _drop: (() => void) | undefined;
    constructor(drop: () => void) { this._drop = drop; }
    public destroy(): void {
        this._drop !== undefined && this._drop();
        this._drop = undefined;
    }
}

export class Subject<T> {
    private _handlers: Map<number, (v: T) => any> = new Map();
    private _next: number = 0;
    constructor(_name?: string) {}
    public subscribe(handler: (v: T) => any): Subscription {
        const id = this._next++;
        this._handlers.set(id, handler);
        return new Subscription(() => { this._handlers.delete(id); });
    }
    // each subscriber is called, the first exception then reaches who emits
    public emit(v: T): void {
        let failed: { e: unknown } | undefined;
        Array.from(this._handlers.values()).forEach((h) => {
            try { h(v); } catch (e) { failed = failed === undefined ? { e } : failed; }
        });
        if (failed !== undefined) { throw (failed as any).e; }
    }
    public destroy(): void { this._handlers.clear(); }
}

let ids = 0;
export function guid(): string { return `guid-${++ids}`; }
const space: any = {};
export function globals(): any { return space; }

export interface IClientEvents {
    data: Subject<ArrayBufferLike>;
    connected: Subject<void>;
    disconnected: Subject<void>;
    error: Subject<Error>;
}

export abstract class Client {
    public abstract getEvents(): IClientEvents;
    public abstract send(buffer: ArrayBufferLike): Error | undefined;
    public abstract destroy(): Promise<void>;
}

export interface IServerError { uuid?: string; error: Error; }
export interface IServerReceivedEvent { uuid: string; buffer: Buffer; }

export interface IServerEvents {
    ready: Subject<void>;
    shutdown: Subject<void>;
    error: Subject<IServerError>;
    connected: Subject<string>;
    disconnected: Subject<string>;
    received: Subject<IServerReceivedEvent>;
}

export abstract class Server {
    public abstract getEvents(): IServerEvents;
    public abstract listen(): Promise<void>;
    public abstract shutdown(): Promise<void>;
    public abstract send(buffer: ArrayBufferLike, uuid: string): Promise<void>;
    public abstract disconnect(uuid: string): Promise<void>;
}

export enum ConsumerErrorHandelingStrategy { Log, Disconnect, EmitError, EmitErrorAndDisconnect }
export enum ProducerIdentificationStrategy { Ignore, Log, EmitError, Disconnect, EmitErrorAndDisconnect }

export class Options {
    public consumerErrorHandelingStrategy: ConsumerErrorHandelingStrategy;
    public producerIndentificationStrategy: ProducerIdentificationStrategy;
    public logger: Logger;
    constructor(o: {
        consumerErrorHandelingStrategy?: ConsumerErrorHandelingStrategy;
        producerIndentificationStrategy?: ProducerIdentificationStrategy;
        logger?: Logger;
    }) {
        this.consumerErrorHandelingStrategy = o.consumerErrorHandelingStrategy ?? ConsumerErrorHandelingStrategy.Log;
        this.producerIndentificationStrategy = o.producerIndentificationStrategy ?? ProducerIdentificationStrategy.Log;
        this.logger = o.logger ?? new DefaultLogger("");
    }
}
