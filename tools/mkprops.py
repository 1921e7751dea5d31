import json
S='src/oidcmsg/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech],"observe_at":observe or []}})
p("P01","ID Token claims are accepted only for this client, issuer, time and nonce",
  "Validating an ID Token succeeds only if its issuer equals the expected issuer (when one is given), the client's identifier is among its audiences (when one is given), a token for several audiences names an authorized party that is one of them, an authorized party, when named, is this client (when known), the current time minus the allowed skew is not past the expiry, the issue time is not older than the nonce storage time (four hours by default) and its nonce equals the expected nonce (when both are present). Every violation raises the corresponding error, and a token that satisfies all of this and carries its required claims is accepted.",
  ["inputs","configurations"],"every ID Token content, every combination of the validation parameters and every current time",
  "A handful of tokens with fixed claims are tried; the property ranges over all claim combinations, audience lists of any length and all clock readings.",
  ["oidc/__init__.py"],[("IdToken.verify","oidc/__init__.py"),("Message.verify","message.py")],["exception or success of IdToken.verify"])
p("P02","A response's ID Token is taken over only if signed and bound as required",
  "A response carrying an ID Token is accepted only if that token was decoded from the response's own value and is signed with an algorithm other than none (unless the caller explicitly allows none), with the allowed algorithm when one is configured, and, when it is signed and keys are supplied, by an issuer for which keys are known. When hash checking is requested for a signed token, an access token or code in the response must be matched by the token's corresponding hash claim computed with the token's own algorithm; a missing or different hash is refused. The verified token found in the response afterwards is exactly the decoded one.",
  ["inputs","configurations"],"every response content, token, header, key set and combination of verification options",
  "Tests use a few RSA/HMAC tokens; the quantifier is all headers, algorithms, options and token/hash combinations.",
  ["oidc/__init__.py"],[("verify_id_token","oidc/__init__.py"),("IdToken.verify","oidc/__init__.py")])
p("P03","Signed content is loaded only after its signature was verified",
  "Loading a message from a signed JWT whose header names an algorithm other than none stores its payload only if signature verification succeeded with a key obtained for that very token from the key set, and raises otherwise, leaving the message unchanged; lack of keys is an error of its own. Encrypted input is first decrypted with the receiver's keys and the signature of the inner token is verified just the same. The recorded header is the one of the token whose payload was loaded.",
  ["inputs","configurations"],"every token text, key set and loading option",
  "Tests sample a few algorithms and tampered tokens; verification bypass needs a particular header, key-set or option combination.",
  ["message.py"],[("Message.from_jwt","message.py")])
p("P04","A caller-supplied 'verified' marker never survives as if it had been verified",
  "After successful verification of a request or response of a type that can embed a token (request object, identity token, identity token hint, logout token), the 'verified' copy of that token found in the message was decoded from the token in effect by that very verification, and there is none when there is no such token; copies that were already in the received message, or that came with its embedded content, are discarded.",
  ["inputs"],"every message content, including one that already contains the markers",
  "No test supplies a forged marker for each message type and each embedding path.",
  ["oidc/__init__.py","oauth2/__init__.py","oidc/session.py"],[("clear_verified_claims","oidc/__init__.py"),("AuthorizationRequest.verify","oauth2/__init__.py")])
p("P05","Required parameters and restricted values are enforced for every message type",
  "For every message type the base validation succeeds exactly when each required parameter is present with a non-empty value (booleans may be false) and each non-empty parameter with a restricted value set holds only values of that set, element by element for lists. Otherwise it raises the missing-attribute or the value-not-allowed error, whichever applies, and it never changes the message.",
  ["inputs"],"every message type and every content of a loaded message",
  "Tests touch some attributes of some types; the property covers each declared parameter of about seventy types with arbitrary values and list lengths.",
  ["message.py","oauth2/__init__.py","oidc/__init__.py","oidc/session.py","oidc/identity_assurance.py","oauth2/device_authorization.py"],[("Message.verify","message.py"),("Message._type_check","message.py")])
p("P06","Loading from dict or JSON stores only values of the declared type",
  "After a message was built from keyword arguments, a mapping or a JSON text, or had one parameter assigned, every declared string, integer, boolean or list-of-strings parameter that was given (also with a language tag) holds a value of its declared type or a null (for lists only where nulls are allowed), every nested-message parameter holds a message (embedded ID tokens and generic messages possibly still the text or mapping given), every list of nested messages a list of messages; a value that cannot be taken or converted raises an error instead of being stored, and a failed assignment leaves the message as it was. Parameters that are not declared are stored unchanged, and no parameter that was not in the input (or a default) appears. Time stamps, dates and JSON mappings have conversions of their own, outside this property.",
  ["inputs"],"every declared parameter of every message type and every JSON value",
  "Tests feed a few wrong types to a few attributes.",
  ["message.py"],[("Message.from_dict","message.py"),("Message._add_value","message.py"),("deserializers","message.py")])
p("P07","Dict and JSON serialisation is lossless for loaded messages",
  "Serialising a message to a dict, or to JSON, and loading the result into a fresh message of the same type gives an equal message: same parameters with same values, nested messages included, and serialising does not change the message.",
  ["inputs"],"every message of every type whose values have the declared types",
  "Round trips are tested on a few examples of a few types.",
  ["message.py"],[("Message.to_dict","message.py"),("Message.from_dict","message.py")])
p("P08","URL-encoded serialisation carries exactly the message's parameters",
  "URL-encoding a message requires all its required parameters (unless the message is lax) and yields one key/value pair per parameter, in order, with string values unchanged, declared lists joined by spaces, undeclared lists repeated, and nulls left out unless allowed. Decoding puts every received parameter into the message, splits declared lists, and refuses repeated single-valued parameters and non-empty input that contains no parameter.",
  ["inputs"],"every message content and every query string",
  "Tests use fixed parameter sets.",
  ["message.py"],[("Message.to_urlencoded","message.py"),("Message.from_urlencoded","message.py")])
p("P09","A request object is merged only after verification and under the merge rules",
  "When an authorization request carries a request object, the request is accepted only if the request object was decoded from the request's own value and its signature, unless its algorithm is none, was verified. Under strict merging (the OpenID and JWT-secured authorization requests) every plain parameter that is not in the request object is dropped and the request object's values are taken over; under lax merging (pushed authorization requests) the request object's values take precedence over plain parameters and the other plain parameters are kept; with a whitelist exactly the whitelisted plain parameters may stay. In no case does a plain value win over the request object's value for the same parameter.",
  ["inputs","configurations"],"every request content, request-object content and whitelist",
  "Tests use a few request objects with fixed parameters.",
  ["oauth2/__init__.py","oidc/__init__.py"],[("AuthorizationRequest.merge","oauth2/__init__.py"),("JWTSecuredAuthorizationRequest.verify","oauth2/__init__.py"),("PushedAuthorizationRequest.verify","oauth2/__init__.py"),("AuthorizationRequest.verify","oidc/__init__.py")])
p("P10","OpenID authorization requests obey the protocol's conditional requirements",
  "An OpenID authorization request is accepted only if its scope contains openid, a nonce is present whenever an ID Token is requested from the authorization endpoint, prompt none is not combined with other prompts, consent is prompted whenever offline access is requested, and every display, prompt and similar restricted parameter has an allowed value; this holds for the parameters finally in effect, those taken from a request object included.",
  ["inputs"],"every parameter combination",
  "Tests check single bad combinations.",
  ["oidc/__init__.py"],[("AuthorizationRequest.verify","oidc/__init__.py")])
p("P11","Logout tokens and session-end requests are accepted only when well-formed",
  "A logout token is accepted only if it has no nonce, its events claim consists of exactly the back-channel logout event with an empty object, it identifies a subject or a session, it is for the expected audience and issuer when those are given, was not issued in the future beyond the skew, and is signed with the allowed algorithm when one is configured. A back-channel logout request is accepted only if its logout token is a signed, verified token that meets these rules, and an end-session request with a redirect target needs a verified identity token hint.",
  ["inputs","configurations"],"every token content, option and clock reading",
  "Tests try one deviation at a time.",
  ["oidc/session.py"],[("LogoutToken.verify","oidc/session.py"),("BackChannelLogoutRequest.verify","oidc/session.py"),("EndSessionRequest.verify","oidc/session.py")])
p("P12","Time, audience and issuer limits of generic JWT claim sets are enforced",
  "Validating a generic JWT claim set succeeds only if the current time is not later than expiry plus skew, not earlier than issue time or not-before time minus skew, the expected audience is among the audiences when one is given and the issuer equals the expected issuer when one is given; each of these checks applies whenever the claim is present.",
  ["inputs","configurations"],"every claim set, skew, expected audience/issuer and clock reading",
  "Tests use a few fixed offsets.",
  ["oidc/__init__.py"],[("JsonWebToken.verify","oidc/__init__.py")])
p("P13","Client registration requests and responses are validated and completed",
  "A registration request is accepted only if its login initiation address uses https, encryption methods are never given without an encryption algorithm (and default to the standard method when only the algorithm is given), and signing of client authentication is not 'none'. A registration response contains the registration client address exactly when it contains the registration access token.",
  ["inputs"],"every registration content",
  "Tests cover single attributes.",
  ["oidc/__init__.py"],[("RegistrationRequest.verify","oidc/__init__.py"),("RegistrationResponse.verify","oidc/__init__.py")])
p("P14","Provider metadata is accepted only if it meets the discovery rules",
  "Provider metadata is accepted only if its issuer is an https address (unless plain http is explicitly allowed) without query or fragment, supported scopes include openid and use only scope characters, RS256 is among the supported ID Token signing algorithms, and a token endpoint is given whenever a response type includes code.",
  ["inputs"],"every metadata content",
  "Tests mutate a single attribute of one document.",
  ["oidc/__init__.py"],[("ProviderConfigurationResponse.verify","oidc/__init__.py")])
p("P15","OAuth2 responses are bound to the client and issuer and carry legal error texts",
  "An authorization response that names a client or issuer is accepted by a caller that gives its expected values only if they are equal. The error description of any accepted OAuth2 or OpenID response message consists only of the characters the specification allows.",
  ["inputs"],"every response content and expected value",
  "Tests use one match and one mismatch.",
  ["oauth2/__init__.py"],[("AuthorizationResponse.verify","oauth2/__init__.py"),("ResponseMessage.verify","oauth2/__init__.py")])
p("P16","Messages behave as mappings and housekeeping touches only what it names",
  "Reading, testing, deleting, counting and iterating a message agree with its stored parameters; removing unknown parameters leaves exactly the declared ones, removing blanks leaves exactly the non-empty ones, listing extras gives exactly the undeclared ones, updating changes exactly the given keys, and a copy is equal and independent. An authorization request address appends the encoded parameters with the right separator.",
  ["inputs","histories"],"every message content and key",
  "Tests use small fixed messages.",
  ["message.py"],[("Message","message.py")])
p("P17","Claims requests match claim values as specified",
  "A requested claim with no constraint (null, or only the essential flag) matches any value; one with a value matches exactly that value, one with several values any of them (value or values). A claims request for identity assurance (verification element, verified claims request, the verified_claims member of an identity assurance claims request) is refused when, for one of the described claims at whatever depth, the essential flag is no boolean, the value or one of the values has not the claim's type, or the purpose is not 3 to 300 permitted characters; one that is accepted is stored as a verified claims request.",
  ["inputs"],"every claim value and every constraint, at any depth of the request",
  "Tests sample constraints.",
  ["oidc/__init__.py","oidc/identity_assurance.py"],[("claims_match","oidc/__init__.py"),("verify_claims_request","oidc/identity_assurance.py"),("IDAClaimsRequest","oidc/identity_assurance.py")])
p("P18","Identity-assurance evidence and verification data is validated by its type",
  "Verified-claims data is accepted only if it contains both verification and claims, the verification names a trust framework, and each piece of evidence is of a known type and satisfies the rules of that type; time and date values must be in the specified formats.",
  ["inputs"],"every verified-claims structure",
  "Tests load the specification's examples.",
  ["oidc/identity_assurance.py"],[("VerifiedClaims","oidc/identity_assurance.py"),("evidence_deser","oidc/identity_assurance.py")])
p("P19","Time conversions are mutually consistent",
  "Comparison helpers order times by the instant they denote, a time in the past is reported as past relative to now, parsing the text produced for an instant yields that instant, and shifting by a duration adds exactly that duration.",
  ["inputs"],"every instant and duration",
  "Tests use fixed dates.",
  ["time_util.py"],[("time_util functions","time_util.py")])
p("P20","Stores return what was stored under the same key, and only that",
  "After storing a value under a key, reading that key returns the stored value until it is overwritten or deleted, other keys are unaffected, deleting removes exactly that key and listing keys gives exactly the stored ones, whatever characters the key contains. Labelled stores keep the keys of different labels apart, and clearing a file store removes every entry of it.",
  ["inputs","histories"],"every sequence of store operations and every key",
  "Tests use a few plain keys and one label.",
  ["storage/abfile.py","storage/extension.py","storage/init.py"],[("AbstractFileSystem","storage/abfile.py"),("LabeledDict","storage/extension.py")])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); 
    n=x['statement'].count('. ')+1
    print(x['id'],n,len(x['title']))
