package main

func init() {
	specs["C01"] = spec{run: checkC01, rule: "on every successful path of decrypting, the plaintext term is the decryption under the keys of the message's own chain and counter and the MAC equality over identities and all received bytes is among the path facts"}
	specs["C04"] = spec{run: checkC04, rule: "on every successful path the effects contain a trust query for the session's own identity, address and direction whose answer is true among the path facts; a false answer leads to an error without effects"}
	specs["C05"] = spec{run: checkC05, rule: "every recording of an identity is preceded, on its path, by an accepted trust query and by a proof (MAC equality or verified signature) for that key"}
	specs["C06"] = spec{run: checkC06, rule: "every effect and success of processing a bundle has the fact verify(identity, signature, encoded signed pre-key), and the stored session is the X3DH term over that key"}
	specs["C07"] = spec{run: checkC07, rule: "on every successful path of decrypting, the stored session's chain index exceeds the counter or the saved key used is filtered out, and no copy of the state used is left"}
}

func init() {
	specs["C02"] = spec{run: checkC02, rule: "on every successful path of decrypting a group message, the plaintext term is the decryption under the key of the message's iteration on the chain it names, and the signature verification over all preceding bytes under that chain's key is among the path facts"}
	specs["C08"] = spec{run: checkC08, rule: "on every successful path of decrypting a group message, the stored chain is past the message's iteration or the saved key is removed; a distribution of a known chain stores the existing state"}
	specs["C09"] = spec{run: checkC09, rule: "on every successful path of encrypting, the ciphertext term is keyed by the loaded chain, the wire counter is its index, and the stored chain is the one-step successor"}
	specs["C10"] = spec{run: checkC10, rule: "on every successful path the last store effect is for the address and distribution of the load and its record term is the loaded one with exactly the operation's update"}
	specs["C11"] = spec{run: checkC11, rule: "no path that fails without a failing store call has a write effect; stored archived sessions are the loaded ones; in-memory stores hand out copies"}
}
