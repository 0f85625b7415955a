// Stands in for the one that needs Saxon, which is not installed here: the compiler is only asked for
// Extended PLEXIL, and lib/xslt.py applies the stylesheets.
package plexil.xml;

import java.io.File;
import org.w3c.dom.Document;

public class SaxonTransformer {
    public void setIndent(boolean b) {}
    public void loadStylesheetFromURL(String u) {}
    public boolean translateDOM(Document n, File out) { return false; }
    public boolean translateFiles(File a, File b) { return false; }
}
