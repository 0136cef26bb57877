static std::string result;

template<typename F>
static char const* told(F f)
{
    json r;
    try
    {
        r = f();
    }
    catch (std::exception const& e)
    {
        r = {{"error", std::string(e.what()).substr(0, 300)}};
    }
    result = r.dump(-1, ' ', true, json::error_handler_t::replace);
    return result.c_str();
}
