import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";

export function emit(beacon: Protocol.Ping, scope: Scope): Promise<void> {
    return (globalThis as any).SIM.beacon("Ping", beacon, scope);
}
