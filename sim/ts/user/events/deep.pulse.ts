import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/deep.pulse";

export function emit(event: Protocol.Deep.Pulse, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    return (globalThis as any).SIM.event("Deep.Pulse", event, filter, Output, Protocol);
}
