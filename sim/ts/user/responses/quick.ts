import { Response } from "../implementation/responses/quick";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.Quick, scope: Scope): Promise<Response> {
    return (globalThis as any).SIM.request("Quick", request, scope, Response, Protocol);
}
