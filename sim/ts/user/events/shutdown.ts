import { Producer, Context } from "../implementation/events";

export function emit(context: Context, producer: Producer): Promise<void> {
    return (globalThis as any).SIM.shutdown();
}
