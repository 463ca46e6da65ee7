import java.nio.file.Files;
import java.nio.file.Paths;
import java.security.KeyFactory;
import java.security.MessageDigest;
import java.security.PublicKey;
import java.security.Signature;
import java.security.spec.X509EncodedKeySpec;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * The two primitives of module Crypto, for recorded traces: SHA-256, and RSASSA-PKCS1-v1_5 with
 * SHA-256 under a named public key (DER SubjectPublicKeyInfo files in the directory given by the
 * system property "keys"). Nothing else of the specification is implemented outside TLA+.
 */
public class CryptoOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {CryptoOverrides.class};
    }

    private static final ConcurrentHashMap<String, PublicKey> KEYS = new ConcurrentHashMap<>();

    private static byte[] bytes(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            b[i] = (byte) ((IntValue) t.elems[i]).val;
        }
        return b;
    }

    private static Value value(final byte[] b) {
        final Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            e[i] = IntValue.gen(b[i] & 0xff);
        }
        return new TupleValue(e);
    }

    private static final byte[] HEX = "0123456789abcdef".getBytes();

    @TLAPlusOperator(identifier = "HexDigest", module = "Crypto", warn = false)
    public static Value hexDigest(final Value m) throws Exception {
        final byte[] d = MessageDigest.getInstance("SHA-256").digest(bytes(m));
        final byte[] h = new byte[d.length * 2];
        for (int i = 0; i < d.length; i++) {
            h[2 * i] = HEX[(d[i] >> 4) & 15];
            h[2 * i + 1] = HEX[d[i] & 15];
        }
        return value(h);
    }

    @TLAPlusOperator(identifier = "SigValid", module = "Crypto", warn = false)
    public static Value sigValid(final Value key, final Value msg, final Value sig) throws Exception {
        final String name = ((StringValue) key).val.toString();
        PublicKey pk = KEYS.get(name);
        if (pk == null) {
            final byte[] der =
                    Files.readAllBytes(Paths.get(System.getProperty("keys"), name + ".pub.der"));
            pk = KeyFactory.getInstance("RSA").generatePublic(new X509EncodedKeySpec(der));
            KEYS.put(name, pk);
        }
        final Signature s = Signature.getInstance("SHA256withRSA");
        s.initVerify(pk);
        s.update(bytes(msg));
        try {
            return s.verify(bytes(sig)) ? BoolValue.ValTrue : BoolValue.ValFalse;
        } catch (java.security.SignatureException e) {
            return BoolValue.ValFalse;
        }
    }
}
