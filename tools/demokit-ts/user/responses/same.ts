import { Response } from "../implementation/responses/same";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.Same, scope: Scope): Promise<Response> {
    return (globalThis as any).SIM.request("Same", request, scope, Response, Protocol);
}
