import { Response } from "../implementation/responses/echo";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.Echo, scope: Scope): Promise<Response> {
    return (globalThis as any).SIM.request("Echo", request, scope, Response, Protocol);
}
