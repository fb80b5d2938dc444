import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/connected";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    return (globalThis as any).SIM.session("connected", consumer, filter, Output, Protocol);
}
