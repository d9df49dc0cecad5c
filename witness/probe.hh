// A reader and a writer that do everything a codec can do with a stream, in any order: what they
// see and write is compared with what the caller gave and gets.
namespace probe
{
int any();
void see( int c, int line, int column );
void ended();
char one();
const char *chars();
const std::string &text();
void wrote();
bool finish();

bool read( protogen_W::istream &in )
{
    while (!in.eof())
    {
        see(in.peek(), in.line(), in.column());
        if (any()) return finish();
        in.next();
    }
    ended();
    return finish();
}

bool write( protogen_W::ostream &out )
{
    for (;;)
    {
        switch (any())
        {
            case 0: return finish();
            case 1: out << one(); break;
            case 2: out << chars(); break;
            case 3: out << (char*) chars(); break;
            default: out << text(); break;
        }
        wrote();
    }
}
}
