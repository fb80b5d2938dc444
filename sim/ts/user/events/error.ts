import { Producer, Identification, Filter, Context, ProducerError } from "../implementation/events";

export function emit(error: any, context: Context, producer: Producer, consumer: Identification | undefined, filter: Filter | undefined): Promise<void> {
    return (globalThis as any).SIM.error(error, consumer);
}
