// Signs and reads signed JARs as asked for on standard input, one
// request to a line, fields separated by tabs.
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.security.*;
import java.security.cert.Certificate;
import java.security.cert.CertificateFactory;
import java.util.*;
import java.util.jar.*;
import java.util.zip.*;
import jdk.security.jarsigner.JarSigner;

public class Driver {
    static Map<String, KeyStore.PrivateKeyEntry> keys = new HashMap<>();

    static KeyStore.PrivateKeyEntry key(String file) throws Exception {
        KeyStore.PrivateKeyEntry e = keys.get(file);
        if (e == null) {
            KeyStore ks = KeyStore.getInstance("PKCS12");
            char[] pw = "changeit".toCharArray();
            try (InputStream in = new FileInputStream(file)) {
                ks.load(in, pw);
            }
            String alias = ks.aliases().nextElement();
            e = (KeyStore.PrivateKeyEntry) ks.getEntry(
                alias, new KeyStore.PasswordProtection(pw));
            keys.put(file, e);
        }
        return e;
    }

    static String b64(String s) {
        return Base64.getEncoder().encodeToString(
            s.getBytes(StandardCharsets.UTF_8));
    }

    // sign IN OUT P12 NAME DIGEST SIGALG
    static void sign(String[] a) throws Exception {
        JarSigner.Builder b = new JarSigner.Builder(key(a[3]))
            .digestAlgorithm(a[5]).signerName(a[4]);
        if (!a[6].equals("-")) b.signatureAlgorithm(a[6]);
        try (ZipFile in = new ZipFile(a[1]);
             FileOutputStream out = new FileOutputStream(a[2])) {
            b.build().sign(in, out);
        }
    }

    // verify JAR CERT: a line for each entry: S signed with it, O by
    // others, U unsigned
    static void verify(String[] a, PrintStream out) throws Exception {
        Certificate cert;
        try (InputStream in = new FileInputStream(a[2])) {
            cert = CertificateFactory.getInstance("X.509")
                .generateCertificate(in);
        }
        byte[] buf = new byte[8192];
        StringBuilder res = new StringBuilder();
        try (JarFile jar = new JarFile(new File(a[1]), true)) {
            for (Enumeration<JarEntry> en = jar.entries();
                 en.hasMoreElements(); ) {
                JarEntry e = en.nextElement();
                try (InputStream in = jar.getInputStream(e)) {
                    while (in.read(buf) >= 0) { }
                }
                String st = "U";
                if (e.getCodeSigners() != null) {
                    st = "O";
                    for (CodeSigner s : e.getCodeSigners())
                        if (s.getSignerCertPath().getCertificates().get(0)
                            .equals(cert)) st = "S";
                }
                res.append(st + "\t" + b64(e.getName()) + "\n");
            }
        }
        out.print(res);
    }

    // manifest IN OUT: reads a manifest and writes it
    static void manifest(String[] a) throws Exception {
        Manifest m = new Manifest();
        try (InputStream in = new FileInputStream(a[1])) { m.read(in); }
        try (OutputStream out = new FileOutputStream(a[2])) { m.write(out); }
    }

    static void dump(PrintStream out, Attributes at) {
        for (Map.Entry<Object, Object> e : at.entrySet())
            out.println("A\t" + b64(e.getKey().toString()) + "\t"
                        + b64(e.getValue().toString()));
    }

    // read IN: prints a manifest
    static void read(String[] a, PrintStream out) throws Exception {
        Manifest m = new Manifest();
        try (InputStream in = new FileInputStream(a[1])) { m.read(in); }
        out.println("M");
        dump(out, m.getMainAttributes());
        for (Map.Entry<String, Attributes> e : m.getEntries().entrySet()) {
            out.println("N\t" + b64(e.getKey()));
            dump(out, e.getValue());
        }
    }

    // javac or javap, with their own arguments
    static void tool(String name, String[] a, PrintStream out)
        throws Exception {
        StringWriter text = new StringWriter();
        PrintWriter pw = new PrintWriter(text);
        int rc = java.util.spi.ToolProvider.findFirst(name).get()
            .run(pw, pw, Arrays.copyOfRange(a, 1, a.length));
        pw.flush();
        if (rc != 0)
            throw new IllegalArgumentException(text.toString());
        out.println("T\t" + b64(text.toString()));
    }

    // some class files of the platform: classes SEED COUNT DIR
    static List<java.nio.file.Path> all;
    static void classes(String[] a, PrintStream out) throws Exception {
        if (all == null) {
            java.nio.file.FileSystem fs = java.nio.file.FileSystems
                .getFileSystem(java.net.URI.create("jrt:/"));
            all = new ArrayList<>();
            try (java.util.stream.Stream<java.nio.file.Path> st =
                     java.nio.file.Files.walk(fs.getPath("/modules"))) {
                st.filter(p -> p.toString().endsWith(".class"))
                    .sorted().forEach(all::add);
            }
        }
        Random rnd = new Random(Long.parseLong(a[1]));
        int n = Integer.parseInt(a[2]);
        for (int i = 0; i < n; i++) {
            java.nio.file.Path p = all.get(rnd.nextInt(all.size()));
            File f = new File(a[3], i + ".class");
            java.nio.file.Files.write(f.toPath(),
                java.nio.file.Files.readAllBytes(p));
            out.println("C\t" + b64(p.toString()) + "\t" + b64(f.getPath()));
        }
    }

    public static void main(String[] args) throws Exception {
        Security.setProperty("jdk.jar.disabledAlgorithms", "");
        Security.setProperty("jdk.certpath.disabledAlgorithms", "");
        BufferedReader in = new BufferedReader(
            new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(System.out, false, "UTF-8");
        String line;
        while ((line = in.readLine()) != null) {
            String[] a = line.split("\t", -1);
            try {
                if (a[0].equals("sign")) sign(a);
                else if (a[0].equals("verify")) verify(a, out);
                else if (a[0].equals("manifest")) manifest(a);
                else if (a[0].equals("read")) read(a, out);
                else if (a[0].equals("classes")) classes(a, out);
                else if (a[0].equals("javac") || a[0].equals("javap"))
                    tool(a[0], a, out);
                out.println(".ok");
            } catch (Throwable t) {
                out.println(".error\t" + t.getClass().getName() + "\t"
                            + b64("" + t.getMessage()));
            }
            out.flush();
        }
    }
}
