import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/tick";

export function emit(event: Protocol.Tick, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    return (globalThis as any).SIM.event("Tick", event, filter, Output, Protocol);
}
