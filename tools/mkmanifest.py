"""writes MANIFEST.json (development tool)"""
import json
T = 'contract-based deductive verification: VCs from the AST of the real functions, contracts at call sites, discharged by z3'
NOTE = {
 'P01': 'IdToken.verify for all claim sets, options and clock readings; Message.verify used by its contract and proved for this class',
 'P02': 'verify_id_token for any message, claim name and options, and verify of every response class that embeds an ID Token; from_jwt, IdToken.verify, Message.verify by their contracts (proved under P03, P01, P05); cryptojwt is a trusted model',
 'P03': 'Message.from_jwt for every text, key set and options; cryptojwt (JWS/JWE/KeyJar) is a trusted model; from_dict by its frame',
 'P04': 'verify of every message class that embeds a token and clear_verified_claims, for all contents (forged markers included) and options; tokens loaded through the contract of from_jwt (P03)',
 'P05': 'Message.verify for each of the message classes, every content; both directions (accept iff no rule violated), frame',
 'P06': '_add_value for each distinct parameter type and conversion, from_dict and __setitem__ for each set of declared parameters, construction with defaults, from_json, for all keys and values; Message.deserialize of a fresh message inside the conversions is an assumed contract',
 'P09': 'verify of the OpenID, JWT-secured and pushed authorization requests and AuthorizationRequest.merge for all contents, request objects and whitelists; request objects loaded through the contract of from_jwt (P03)',
 'P10': 'AuthorizationRequest.verify (OpenID) in the acceptance direction, for all parameters in effect, request objects included',
 'P11': 'LogoutToken.verify both directions for all contents and options; BackChannelLogoutRequest.verify and EndSessionRequest.verify in the acceptance direction, tokens loaded through the contract of from_jwt',
 'P12': 'JsonWebToken.verify for all claim sets, options and clock readings, both directions',
 'P13': 'RegistrationRequest/Response.verify for all contents, both directions, exact completion of encryption methods',
 'P14': 'ProviderConfigurationResponse.verify for all contents; urlparse is a trusted model',
 'P15': 'AuthorizationResponse.verify and ResponseMessage.verify of every response class, all contents and expected values',
 'P17': 'claims_match, the constraint check per claim type, verify_claims_request for each described class (nested requests by its own contract), the three verify methods, for all contents; the conversion of the stored request (from_dict) is an assumed contract',
 'P16': 'the mapping operations, weed/rm_blanks/extra/only_extras/update/set_defaults/by_schema/copy/request of every message class, for all contents; copy.deepcopy is a trusted model, the text of to_urlencoded is arbitrary',
}
NA = [
 ('P07', 'the guarantee is that two text forms (json.dumps/json.loads over arbitrarily nested values) are inverse to each other and that serialisers and deserialisers of every parameter type are too, by induction over nested messages; that needs an inductive theory of JSON values which the generator does not have, and with dumps/loads as uninterpreted trusted functions the property would be assumed, not proved. The loading half is P06'),
 ('P08', 'needs urlencode/parse_qs as mutually inverse text functions plus an ordered list of pairs built by a loop with appends under several branches, for which the generator has no inductive sequence contract; not built'),
 ('P18', 'the code decides it for single pieces of evidence (Evidence.verify) through to_dict and a new instance of another class, of which only purity of to_dict is under contract here; nested evidence is not verified by the code at all. A defect found while reading for it is repaired (3de4035); no contract built'),
 ('P19', 'calendar arithmetic is done by datetime, calendar and time.strptime/mktime, outside the verified text; what remains is format strings, and the wrong day handling of add_duration is pinned by existing tests'),
 ('P20', 'decided by the contents of the file system under renames, lock files and time stamps (os.listdir, open, FileLock); needs a ghost file-system model that was not built. Two defects found while reading for it are repaired (8f05e01, 9efdc65)'),
]
checks = [{'property': p, 'quick_cmd': 'python3-vt check.py ' + p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
           'technique': T, 'level': 'proof', 'level_note': n + '. Trusted: the pyvc VC generator, z3, models of external libraries (DESIGN.md).'}
          for p, n in sorted(NOTE.items())]
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na = [{'property': p, 'reason': r} for p, r in NA]
for p in props:
    if p not in NOTE and p not in dict(NA):
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'no hooks in /repo; the functions under proof are read from /repo/src on every run'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
