import { Response } from "../implementation/responses/multi";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.Multi, scope: Scope): Promise<Response> {
    return (globalThis as any).SIM.request("Multi", request, scope, Response, Protocol);
}
