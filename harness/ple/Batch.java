// Runs the PLEXIL compiler on many sources in one process.
// Arguments: LIST (a source per line); writes beside each F a file F.log with its exit status and messages.
import java.io.*;
import java.nio.file.*;

public class Batch {
    static class Exit extends SecurityException {
        final int status;
        Exit(int s) { status = s; }
    }

    public static void main(String[] argv) throws Exception {
        final PrintStream out = System.out, err = System.err;
        System.setSecurityManager(new SecurityManager() {
            public void checkPermission(java.security.Permission p) {}
            public void checkExit(int status) { throw new Exit(status); }
        });
        for (String f : Files.readAllLines(Paths.get(argv[0]))) {
            ByteArrayOutputStream buf = new ByteArrayOutputStream();
            PrintStream ps = new PrintStream(buf, true);
            System.setOut(ps);
            System.setErr(ps);
            int st = 0;
            try {
                plexil.Compiler.main(new String[] { "-e", "-w", f });
            } catch (Exit x) {
                st = x.status;
            } catch (Throwable t) {
                st = 99;
                t.printStackTrace(ps);
            }
            ps.flush();
            Files.write(Paths.get(f + ".log"), (st + "\n" + buf.toString()).getBytes("UTF-8"));
        }
        System.setOut(out);
        System.setErr(err);
        Runtime.getRuntime().halt(0);
    }
}
