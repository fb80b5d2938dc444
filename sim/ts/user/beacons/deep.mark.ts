import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";

export function emit(beacon: Protocol.Deep.Mark, scope: Scope): Promise<void> {
    return (globalThis as any).SIM.beacon("Deep.Mark", beacon, scope);
}
