import { Response } from "../implementation/responses/deep.ask";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";

export function response(request: Protocol.Deep.Ask, scope: Scope): Promise<Response> {
    return (globalThis as any).SIM.request("Deep.Ask", request, scope, Response, Protocol);
}
